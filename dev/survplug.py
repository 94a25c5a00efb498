import json
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
stable=set(base)
def key(item):
    p=str(item.path).split('/tests/')[1][:-3].replace('/','.')
    return f"tests.{p}", item.name.split('[')[0]
names={(s.split('::')[0], s.split('::')[-1].split('[')[0]) for s in base}
def pytest_collection_modifyitems(config, items):
    keep=[i for i in items if key(i) in names]
    config.hook.pytest_deselected(items=[i for i in items if i not in set(keep)])
    items[:]=keep

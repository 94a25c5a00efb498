"""Static analysis of eprempy: source model, abstract interpreter, checks."""

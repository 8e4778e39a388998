"""The smallest stand-in for the (not installed) abopt package that lets pmesh/abopt.py be imported and its operators be called.
It only passes values to the operators by the names of their arguments; it computes nothing."""

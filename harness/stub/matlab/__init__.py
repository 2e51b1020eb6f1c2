"""A stand-in for the MATLAB engine: the parts of the interface that qtune uses, without MATLAB."""

class MatlabExecutionError(Exception):
    pass


class MatlabEngine:
    pass


def start_matlab(*args, **kwargs):
    raise RuntimeError('there is no MATLAB')


def connect_matlab(*args, **kwargs):
    raise RuntimeError('there is no MATLAB')

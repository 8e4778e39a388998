class VectorSpace(object):
    pass

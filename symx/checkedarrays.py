'memory bounds of swiglpk arrays in runs of the real code (counts as library code there)'


def checked_arrays(g):
    '''swiglpk arrays that refuse accesses outside of their memory (the real ones read and write whatever lies there)'''
    if getattr(g, '_checked_arrays', False):
        return

    def kind(base):
        class Array(base):
            def __init__(self, n):
                base.__init__(self, n)
                self.__dict__['size'] = n

            def __getitem__(self, i):
                if not 0 <= i < self.__dict__['size']:
                    raise IndexError('list index out of range')
                return base.__getitem__(self, i)

            def __setitem__(self, i, v):
                if not 0 <= i < self.__dict__['size']:
                    raise IndexError('list assignment index out of range')
                base.__setitem__(self, i, v)
        return Array
    g.intArray, g.doubleArray = kind(g.intArray), kind(g.doubleArray)

    def guard(f):
        def get(lp, i, ind, val):
            n = f(lp, i, None, None)
            for a in (ind, val):
                if a is not None and n and getattr(a, 'size', n + 1) <= n:
                    raise IndexError('list assignment index out of range')
            return f(lp, i, ind, val)
        return get
    g.glp_get_mat_row, g.glp_get_mat_col = guard(g.glp_get_mat_row), guard(g.glp_get_mat_col)
    g._checked_arrays = True

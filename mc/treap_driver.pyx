#cython: language_level=3
# compiled against the current treaps.pxd when the check runs
from libc.stdlib cimport malloc, free
from switss.utils.treaps cimport TNode, in_treap, add_to_treap, free_treap, treap_from_arr, treap_to_arr

cdef list dump(TNode* t):
    cdef int n, i
    cdef int* arr
    if t == NULL: return []
    n = t.size
    if n < 0 or n > 1000000: return [None]
    arr = <int*> malloc((n + 64) * sizeof(int))
    for i in range(n + 64): arr[i] = -123456789
    treap_to_arr(t, arr)
    out = [arr[i] for i in range(n)]
    if arr[n] != -123456789: out.append("more than size")
    free(arr)
    return out

cdef tuple look(TNode* t, list universe):
    return (0 if t == NULL else t.size, [bool(in_treap(t, k)) for k in universe], dump(t))

def inserts(list keys, list universe):
    cdef TNode* t = NULL
    out = []
    for k in keys:
        t = add_to_treap(t, k)
        out.append(look(t, universe))
    free_treap(t)
    return out

def last(list keys, list universe):
    cdef TNode* t = NULL
    for k in keys: t = add_to_treap(t, k)
    r = look(t, universe)
    free_treap(t)
    return r

def from_arr(list keys, list universe):
    cdef TNode* t
    cdef int* arr = <int*> malloc((len(keys) + 1) * sizeof(int))
    cdef int i
    for i in range(len(keys)): arr[i] = keys[i]
    t = treap_from_arr(arr, len(keys))
    for i in range(len(keys)):
        if arr[i] != keys[i]: return None
    r = look(t, universe)
    free_treap(t); free(arr)
    return r

def two(list ka, list kb, list universe):
    """two treaps filled in turn"""
    cdef TNode* a = NULL
    cdef TNode* b = NULL
    cdef int i
    for i in range(max(len(ka), len(kb))):
        if i < len(ka): a = add_to_treap(a, ka[i])
        if i < len(kb): b = add_to_treap(b, kb[i])
    r = (look(a, universe), look(b, universe))
    free_treap(a)
    r2 = look(b, universe)
    free_treap(b)
    return r[0], r[1], r2

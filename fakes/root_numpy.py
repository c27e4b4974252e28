"""Stand-in for root_numpy: records the arrays"""
import ROOT


def array2tree(arr, name='tree', tree=None):
    ROOT.LOG.append(('array', tree.name if tree is not None else name,
                     arr.copy()))
    return tree

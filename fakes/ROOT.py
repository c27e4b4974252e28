"""Stand-in for PyROOT: records what is given to files and trees"""
LOG = []


class _Interpreter:
    def ProcessLine(self, line):
        LOG.append(('line', line))


gROOT = _Interpreter()


class StringHolder:
    fString = ''


def AddressOf(obj, name):
    return obj, name


class TTree:
    def __init__(self, name, title=''):
        self.name, self.branches, self.rows = name, {}, []
        LOG.append(('tree', self))

    def Branch(self, key, address, leaf=''):
        self.branches[key] = (address, leaf)

    def Fill(self):
        self.rows.append({k: getattr(*a) for k, (a, _) in
                          self.branches.items()})


class TFile:
    def __init__(self, name, mode='read'):
        self.name = name
        LOG.append(('open', name, mode))

    def Write(self):
        LOG.append(('write', self.name))

    def Close(self):
        LOG.append(('close', self.name))

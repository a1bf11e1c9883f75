"""Reference models: chain parameter names."""


def elements_datadir(self):
    parts = self.NAME.split('/')
    if len(parts) == 1:
        return parts[0] + 'regtest'
    return parts[1]


def liquid_datadir(self):
    return self.NAME.split('/')[1]


def network_id(self):
    return self.get_datadir_extra_name()

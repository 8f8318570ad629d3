"""Small helpers around redmapper objects: configurations and parameter files."""
import os

import yaml

from . import build

FILEKEYS = ('galfile', 'zredfile', 'bkgfile', 'bkgfile_color', 'parfile', 'specfile', 'maskgalfile', 'maskfile',
            'depthfile', 'catfile', 'wcenfile', 'zlambdafile', 'randfile', 'seedfile')


def base_config(**over):
    """The test configuration as a dict, with absolute paths; None values removed, updated by over."""
    with open(os.path.join(build.DATA, 'testconfig.yaml')) as f:
        d = yaml.safe_load(f)
    root = os.path.dirname(build.DATA)

    def absp(v):
        return os.path.normpath(os.path.join(root, v)) if isinstance(v, str) and v.startswith('./') else v
    d = {k: ([absp(x) for x in v] if isinstance(v, list) else absp(v)) for k, v in d.items()}
    d.update(over)
    return d


def write_config(path, **over):
    d = base_config(**over)
    for k, v in list(d.items()):
        if v is DROP:
            del d[k]
    with open(path, 'w') as f:
        yaml.safe_dump(d, f)
    return path


class _Drop:
    pass


DROP = _Drop()


def quiet(config):
    import logging
    config.logger.setLevel(logging.CRITICAL)
    return config


def make_maskgals(config, path, seed=7):
    """Generate a (reproducible) maskgal file for this configuration."""
    import numpy as np
    from redmapper.mask import Mask
    st = np.random.get_state()
    np.random.seed(seed)
    try:
        Mask(config, include_maskgals=False).gen_maskgals(path)
    finally:
        np.random.set_state(st)
    return path


def workdir(name):
    import shutil
    d = os.path.join(build.scratch(), name, str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

"""Puts the code under test (/repo working tree) on the path with
``import tensorflow`` resolving to the TensorFlow 1 graph API."""
import os
import sys
import warnings

REPO = os.environ.get('ZSMON_REPO', '/repo')


def boot():
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
    warnings.filterwarnings('ignore')
    if 'tensorflow' not in sys.modules or not hasattr(
            sys.modules['tensorflow'], 'get_default_graph'):
        import tensorflow as tf2
        import logging
        logging.getLogger('tensorflow').setLevel(logging.ERROR)
        logging.getLogger('absl').setLevel(logging.ERROR)
        v1 = tf2.compat.v1
        v1.disable_v2_behavior()
        v1.logging.set_verbosity(v1.logging.ERROR)
        v1.__path__ = list(v1.__path__) + list(tf2.__path__)
        sys.modules['tensorflow'] = v1
    sys.path.insert(0, REPO)
    import zhusuan
    where = os.path.realpath(zhusuan.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('zhusuan imported from {}'.format(where))
    # everything the checks use, so that forked workers share the import
    import zhusuan.legacy
    import zhusuan.distributions.utils
    import zhusuan.framework.utils
    import zhusuan.diagnostics
    import zhusuan.transform
    import zhusuan.evaluation
    return zhusuan

"""Small TensorFlow helpers for the checks."""
import numpy as np
import tensorflow as tf


def session(inter=1, intra=1, graph=None):
    cfg = tf.ConfigProto(inter_op_parallelism_threads=inter,
                         intra_op_parallelism_threads=intra)
    return tf.Session(config=cfg, graph=graph)


def hide(shape, how, rng=None):
    """Static shape to declare for a tensor of the given real shape."""
    if how == 'static':
        return list(shape)
    if how == 'unknown':
        return None
    if how == 'rank':
        return [None] * len(shape)
    if how == 'partial':
        return [s if rng.randint(2) else None for s in shape]
    raise ValueError(how)


class Feeder(object):
    """Turns arrays into constants or placeholders and remembers the feeds."""

    def __init__(self):
        self.feed = {}

    def tensor(self, value, dtype, how='static', rng=None, const=False):
        value = np.asarray(value, dtype=dtype)
        if const:
            return tf.constant(value, dtype=dtype)
        ph = tf.placeholder(dtype, shape=hide(value.shape, how, rng))
        self.feed[ph] = value
        return ph


def cast_value(x, dtype):
    return np.asarray(x, dtype=dtype)


def resume(sess, make):
    """Checkpoints all global variables of sess with a Saver, closes it and returns
    make() - a new session, possibly of another graph of the same program - with the
    checkpoint restored."""
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='zsmon-ckpt-')
    try:
        with sess.graph.as_default():
            path = tf.train.Saver().save(sess, d + '/state', write_meta_graph=False)
        sess.close()
        new = make()
        with new.graph.as_default():
            tf.train.Saver().restore(new, path)
        return new
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""Import everything once, before any fork, behind the scheduler's lock seam."""
import os
import sys


def load():
    import threads
    threads.install_lock_seam()
    import numpy                                    # noqa
    import scipy.ndimage, scipy.optimize            # noqa
    import skimage.transform, skimage.measure, skimage.segmentation  # noqa
    import h5py                                     # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from PIL import Image
    Image.init()
    try:
        import cv2
        cv2.setNumThreads(1)
        import screen
        screen.install(cv2)
    except Exception:
        pass
    import discorpy.losa.loadersaver as losa
    import discorpy.prep.preprocessing              # noqa
    import discorpy.prep.linepattern                # noqa
    import discorpy.proc.processing                 # noqa
    import discorpy.post.postprocessing             # noqa
    import discorpy.util.utility                    # noqa
    want = os.path.realpath(os.environ['VSIM_REPO'])
    got = os.path.realpath(losa.__file__)
    if not got.startswith(want + os.sep):
        raise SystemExit('wrong library under test: %s' % got)
    import logging
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    # warm the font cache and the text machinery, so that a run does not
    fig = plt.figure()
    plt.plot([0, 1])
    plt.xlabel('x')
    import io
    plt.savefig(io.BytesIO())
    plt.close(fig)
    matplotlib.rcParams.update(matplotlib.rcParamsDefault)
    matplotlib.use('Agg')
    sys.setswitchinterval(0.005)
    import gc
    gc.collect()
    gc.freeze()          # forks then share these objects
    return losa

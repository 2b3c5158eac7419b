import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RF_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)


def boot():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from mc import stubs
        stubs.install()
        import rf
        import rf.batch  # noqa
        import rf.imaging  # noqa
    here = os.path.realpath(os.path.dirname(os.path.dirname(rf.__file__)))
    assert here == os.path.realpath(REPO), 'rf imported from %s' % here


if __name__ == '__main__':
    boot()
    from mc import engine
    sys.exit(engine.main(sys.argv[1:]))

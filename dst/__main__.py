import os
import sys


def main(argv):
    from . import core, seams
    cmd = argv[0] if argv else 'help'
    if cmd == 'setup':
        print(seams.build_allocfault())
        seams.alloc()
        import sdepy
        print('sdepy', sdepy.__version__, 'from', sdepy.__file__)
        return 0
    if cmd == 'check':
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER',
                                                            'quick')
        return core.check_cmd(argv[1], tier)
    if cmd == 'replay':
        return core.replay_cmd(os.path.abspath(argv[1]))
    if cmd == 'digests':
        return core.digests_cmd(argv[1], int(argv[2]),
                                int(argv[3]) if len(argv) > 3 else 1)
    if cmd == 'selftest':
        from . import selftest
        return selftest.main(argv[1:])
    if cmd == 'hashseed-child':
        from . import p07
        return p07.child(argv[1])
    print('usage: check Pxx [tier] | replay FILE | digests Pxx N [seed] | '
          'selftest | setup')
    return 2


if __name__ == '__main__':
    import traceback
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)

"""python -m checks.run C01 [quick|thorough]"""
import importlib
import os
import sys


def main():
    if sys.argv[1] == 'setup':
        import symx.smt, symx.loader  # noqa
        symx.loader.sunwhere()
        print('ok')
        return 0
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from checks import common
    chk = common.Check(prop, tier)
    m = importlib.import_module(f'checks.{prop.lower()}')
    try:
        m.main(chk)
    except Exception:
        import traceback
        chk.inconclusive.append(('check', traceback.format_exc()[-2500:]))
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())

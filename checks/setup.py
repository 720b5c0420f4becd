"""Builds what most checks share (object cache under /verif/build); every check builds the rest itself."""
import os, sys, time
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, '../lib'), os.path.join(H, '../gen')]
from concurrent.futures import ThreadPoolExecutor
import build, codec
t = time.time()
build.plugin()
codec.gen_dir()
with ThreadPoolExecutor(2) as ex:
    list(ex.map(lambda a: codec.driver(*a), (([0, 6], ['DEC'], None), ([0, 6], ['ENC'], None))))
print('%.1f s' % (time.time() - t))

"""Nothing to install: checks that the tools the simulator needs are here."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, pandas, netCDF4, shapefile'])
subprocess.check_call(['gcc', '--version'], stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ok')

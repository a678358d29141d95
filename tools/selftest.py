#!/usr/bin/env python3
"""setup: are the tools the checks need present?"""
import os, shutil, sys
need = ['g++', 'java', 'python3']
miss = [t for t in need if not shutil.which(t)]
if miss or not os.path.exists('/opt/veriftools/tla/tla2tools.jar'):
    print('missing', miss)
    sys.exit(1)
print('ok')

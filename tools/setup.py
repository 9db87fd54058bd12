#!/usr/bin/env python3
"""Nothing has to be built: only see that the interpreter, Keras and JAX the checks use are there."""
import os
import subprocess
import sys

py = os.environ.get("RV_PYTHON", "/opt/venv/bin/python")
env = dict(os.environ, KERAS_BACKEND="jax", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call([py, "-c", "import keras, jax, numpy; print(keras.__version__, jax.__version__)"], env=env))

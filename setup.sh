#!/bin/bash
# Nothing to compile: make sure the interpreter and the package import.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$(pwd) /opt/venv/bin/python -c "
import numpy, cv2, kwimage, osgeo.gdal, delayed_image, mc.core
print('ready', delayed_image.__file__)"

#!/bin/sh
# development helper: run the executable contract of one property
cd /tmp && MKV_REPO=${MKV_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=1 PYTHONPATH=${MKV_REPO:-/repo}:/verif /opt/venv/bin/python -W ignore -m mkv.conc "$@"

#!/bin/sh
# nothing to build: the analyser is stdlib-only Python; check that it loads
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 -c "import tistatic.passes, tistatic.catalog; print('ok')"

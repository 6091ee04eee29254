#!/bin/bash
# planttests.sh ID...: the stable tests of /repo with all of these seeded patches applied together, in a scratch clone
W=$(mktemp -d /tmp/pt.XXXXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo
for i in "$@"; do git -C $W/repo apply /verif/seeded/$i/patch.diff || exit 2; done
export HOME=/root OMP_NUM_THREADS=1 HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 AWS_EC2_METADATA_DISABLED=true PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export LITDATA_WORK=$W PYTHONPATH=$W/repo/src:/opt/vp/plugin PATH=/opt/venv/bin:$PATH
cd $W/repo; mkdir -p $W/w
timeout 840 python -m pytest tests -v -p no:cacheprovider -p litdata_isolate -n 6 --dist worksteal --timeout=120 --color=no \
  --deselect tests/streaming/test_cache.py::test_cache_for_image_dataset_distributed -o junit_family=xunit2 --junitxml=$W/junit.xml --basetemp=$W/pt >$W/log 2>&1
python /opt/vp/results.py $W/out.json junit:$W/junit.xml >/dev/null 2>&1
python3 /verif/tools/base.py $W/out.json

W=$1; cd $W
D=$(mktemp -d)
export TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 HOME=/root
/opt/venv/bin/python -c "import arroba;print(arroba.__file__)" 
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --tb=short --continue-on-collection-errors --hypothesis-profile=ci --ignore=arroba/tests/test_datastore_storage.py --deselect=arroba/tests/test_testdata.py::test_fn -o junit_family=xunit2 --junitxml="$D/junit.xml" arroba/tests arroba/tests/hypothesis/*_test.py >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py $D/o.json "junit:$D/junit.xml" >/dev/null
/opt/venv/bin/python - $D/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
s=set(b['stable']);p=set(o['passed']);print('stable',len(s),'failing',len(s-p),list(s-p)[:5])
P
rm -rf "$D"

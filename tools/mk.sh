# source me: mkp ID ; meta ID PROP NEEDS BREAKS ; ed FILE OLD NEW
mkp(){ (cd /repo && mkdir -p /verif/seeded/$1 && git diff > /verif/seeded/$1/patch.diff && git checkout -q -- . && wc -l /verif/seeded/$1/patch.diff); /verif/tools/mkdemo.sh $1; }
meta(){ python3 -c "
import json,sys;json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/'+sys.argv[1]+'/meta.json','w'),indent=1)" "$@"; }
ed(){ python3 -c "
import sys
p='/repo/'+sys.argv[1];s=open(p).read();assert s.count(sys.argv[2])==1,s.count(sys.argv[2]);open(p,'w').write(s.replace(sys.argv[2],sys.argv[3]))" "$@"; }

import os,subprocess,sys,shutil,json
REPO='/repo'
DEMO_SH='''#!/bin/bash
# run with the repository as the working directory
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.21

require github.com/bluekeyes/go-gitdiff v0.0.0

replace github.com/bluekeyes/go-gitdiff => $repo
EOF
cd "$tmp" && go build %s -o demo . || exit 9
%s timeout 200 ./demo
'''
PRE='''package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
%s
	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

var _ = bytes.NewReader
var _ io.Reader
var _ = strings.Repeat

func fail(format string, args ...any) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func parse(s string) []*gitdiff.File {
	files, _, err := gitdiff.Parse(strings.NewReader(s))
	if err != nil {
		fail("parsing failed: %%v", err)
	}
	return files
}

func one(s string) *gitdiff.File {
	files := parse(s)
	if len(files) != 1 {
		fail("%%d files", len(files))
	}
	return files[0]
}

func apply(f *gitdiff.File, src string, opts ...gitdiff.ApplyOption) (string, error) {
	var out bytes.Buffer
	err := gitdiff.Apply(&out, strings.NewReader(src), f, opts...)
	return out.String(), err
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func expect(what, want, got string) {
	if want != got {
		fail("%%s: want %%q, got %%q", what, clip(want), clip(got))
	}
}
'''
def seed(id,prop,edits,needs,breaks,demo,imports='',flags='',env=''):
    wt='/tmp/seed/wt-'+id
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.check_call(['cp','-a',REPO,wt])
    for f,old,new in edits:
        p=wt+'/gitdiff/'+f
        s=open(p).read()
        if s.count(old)!=1:
            print(id,'EDIT MISMATCH',f,s.count(old),repr(old)); shutil.rmtree(wt); return
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','-C',wt,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO_SH%(flags,env)); os.chmod(d+'/demo.sh',0o755)
    imp='\n'.join('\t"%s"'%x for x in imports.split())
    open(d+'/demo.go.txt','w').write(PRE%imp+'\n'+demo.strip('\n')+'\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
    # verify
    r=subprocess.run('. /opt/vp/env.sh; gofmt -l gitdiff; go vet ./gitdiff && go test ./gitdiff 2>&1 | grep -E "^(---|ok|FAIL| +---)"',shell=True,cwd=wt,capture_output=True,text=True,executable='/bin/bash',env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off'))
    ok_tests='ok' in r.stdout and 'FAIL' not in r.stdout
    a=subprocess.run(['bash',d+'/demo.sh'],cwd=REPO,capture_output=True,text=True)
    b=subprocess.run(['bash',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
    shutil.rmtree(wt)
    st='OK ' if ok_tests and a.returncode==0 and b.returncode not in(0,9) else 'BAD'
    print(st,id,prop,'tests',ok_tests,'clean',a.returncode,a.stdout[-200:]+a.stderr[-300:],'| planted',b.returncode,(b.stdout[-160:]+b.stderr[-300:]).replace('\n',' ')[:300])
    if not ok_tests: print(r.stdout[-1200:],r.stderr[-500:])
    if st=='BAD' : shutil.rmtree(d)

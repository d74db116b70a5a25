"""Writes seeded/<id>/ from an edit list: seed(id, prop, edits, module, pkg, test, needs, breaks)."""
import json, os, subprocess, tempfile, shutil

def seed(sid, prop, edits, module, pkg, test, needs, breaks):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in edits:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    open(d + "/demo.go", "w").write(test.lstrip())
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs demo.go as an in-package test of /repo (through an overlay; nothing is written to /repo).
export HOME="${{HOME:-/root}}" PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd -P)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{{\\"Replace\\":{{\\"$R/{module}/{pkg}/seed_demo_test.go\\":\\"$D/demo.go\\"}}}}" > "$T/overlay.json"
cd "$R/{module}" && TMPDIR=$T go test -count=1 -timeout 120s -overlay "$T/overlay.json" -run TestSeedDemo ./{pkg}
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

# Helper code for demos in 1pass-app/test/core/facade: builds real vaults in a scratch directory.
VAULT = r'''
package facade

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

var _ = service.NewDfltKeyService
var _ = file.NewFileItemRepo

func sMac(key, msg []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

func sCbc(key, iv, data []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(data))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, data)
	return out
}

func sOpdata(key, mac, plain []byte) []byte {
	out := append([]byte("opdata01"), make([]byte, 8)...)
	binary.LittleEndian.PutUint64(out[8:], uint64(len(plain)))
	iv := []byte("0123456789abcdef")
	pad := make([]byte, 16-len(plain)%16)
	out = append(append(out, iv...), sCbc(key, iv, append(pad, plain...))...)
	return append(out, sMac(mac, out)...)
}

func s64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

type sVault struct {
	path                   string
	dk, dm, mk, mm, ok, om []byte
	profile                map[string]interface{}
	items                  map[string]interface{}
}

func sNew(t *testing.T, pw string) *sVault {
	v := &sVault{path: t.TempDir(), items: map[string]interface{}{}}
	salt := []byte("saltsaltsaltsalt")
	k := pbkdf2.NewPbkdf2CryptoUtils().DeriveKey([]byte(pw), salt, 10, 64, sha512.New)
	v.dk, v.dm = k[:32], k[32:]
	m, o := []byte("the master secret"), []byte("the overview secret")
	mh, oh := sha512.Sum512(m), sha512.Sum512(o)
	v.mk, v.mm, v.ok, v.om = mh[:32], mh[32:], oh[:32], oh[32:]
	v.profile = map[string]interface{}{"salt": s64(salt), "iterations": 10, "uuid": "U", "profileName": "default", "createdAt": 1, "updatedAt": 1, "lastUpdatedBy": "x", "passwordHint": "",
		"masterKey": s64(sOpdata(v.dk, v.dm, m)), "overviewKey": s64(sOpdata(v.dk, v.dm, o))}
	return v
}

func (v *sVault) item(uid, category, overview, details string) map[string]interface{} {
	ik := []byte("0123456789ABCDEF0123456789ABCDEFfedcba9876543210fedcba9876543210")
	iv := []byte("abcdef0123456789")
	kb := append(append([]byte{}, iv...), sCbc(v.mk, iv, ik)...)
	kb = append(kb, sMac(v.mm, kb)...)
	it := map[string]interface{}{"uuid": uid, "category": category, "created": 1600000000, "updated": 1600000000, "tx": 1, "hmac": "x",
		"o": s64(sOpdata(v.ok, v.om, []byte(overview))), "d": s64(sOpdata(ik[:32], ik[32:], []byte(details))), "k": s64(kb)}
	v.items[uid] = it
	return it
}

func (v *sVault) write() *domain.Vault {
	dir := filepath.Join(v.path, "default")
	os.MkdirAll(dir, 0700)
	p, _ := json.Marshal(v.profile)
	ioutil.WriteFile(filepath.Join(dir, "profile.js"), []byte("var profile="+string(p)+";"), 0600)
	b, _ := json.Marshal(v.items)
	ioutil.WriteFile(filepath.Join(dir, "band_0.js"), []byte("ld("+string(b)+");"), 0600)
	return domain.NewVault(v.path)
}
'''

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Replays of contracts about protocols run with a copy of onet in which a protocol's node can stand alone: the methods
// the protocols use first look whether the node is such a double. The copy is made from the module cache at every replay;
// the deductive part does not use it.

const onetPath = "go.dedis.ch/onet/v3"

const onetDouble = `package onet

import (
	"sync"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/network"
)

type VerifDouble struct {
	Root, Leaf bool
	Priv       kyber.Scalar
	Pub        kyber.Point
	Tree       *Tree
	Identity   *network.ServerIdentity
}

var verifDoubles sync.Map

// VerifRecord is told what the doubles send.
var VerifRecord func(to interface{}, parent, children bool, msg interface{})

// VerifNode makes a node which is not part of an overlay.
func VerifNode(d *VerifDouble) *TreeNodeInstance {
	n := &TreeNodeInstance{}
	verifDoubles.Store(n, d)
	return n
}

func verifDouble(n *TreeNodeInstance) *VerifDouble {
	if d, ok := verifDoubles.Load(n); ok {
		return d.(*VerifDouble)
	}
	return nil
}
`

var doubleHooks = map[string]string{
	"ServerIdentity() *network.ServerIdentity {": "return d.Identity",
	"IsRoot() bool {":           "return d.Root",
	"IsLeaf() bool {":           "return d.Leaf",
	"Tree() *Tree {":            "return d.Tree",
	"Roster() *Roster {":        "return d.Tree.Roster",
	"Aggregate() kyber.Point {": "return d.Tree.Roster.Aggregate",
	"Done() {":                  "return",
	"Private() kyber.Scalar {":  "return d.Priv",
	"Public() kyber.Point {":    "return d.Pub",
	"Name() string {":           "return \"node\"",
	"Info() string {":           "return \"node\"",
	"SendTo(to *TreeNode, msg interface{}) error {": "VerifRecord(to, false, false, msg); return nil",
	"SendToParent(msg interface{}) error {":         "VerifRecord(nil, true, false, msg); return nil",
	"SendToChildren(msg interface{}) error {":       "VerifRecord(nil, false, true, msg); return nil",
}

// onetModfile writes a copy of onet with doubles and a go.mod which uses it, and returns the latter.
func onetModfile(tmp string) (string, error) {
	gomod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	version := ""
	for _, l := range strings.Split(string(gomod), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == onetPath {
			version = f[1]
		}
	}
	src := filepath.Join("/root/go/pkg/mod", onetPath+"@"+version)
	dst := filepath.Join(tmp, "onet")
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return "", err
	}
	tn := filepath.Join(dst, "treenode.go")
	b, err := os.ReadFile(tn)
	if err != nil {
		return "", err
	}
	s := string(b)
	for sig, ret := range doubleHooks {
		head := "func (n *TreeNodeInstance) " + sig + "\n"
		if !strings.Contains(s, head) {
			return "", fmt.Errorf("no method %s in onet", sig)
		}
		s = strings.Replace(s, head, head+"\tif d := verifDouble(n); d != nil {\n\t\t"+ret+"\n\t}\n", 1)
	}
	if err := os.WriteFile(tn, []byte(s), 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_verif_double.go"), []byte(onetDouble), 0o644); err != nil {
		return "", err
	}
	mf := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(mf, []byte(string(gomod)+"\nreplace "+onetPath+" => "+dst+"\n"), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return mf, os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
}

const nodeImports = `
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
`

const nodeInit = `
func init() {
	onet.VerifRecord = zzghost.Record
	ZNode = func(root, leaf bool, private kyber.Scalar, aggregate kyber.Point) *onet.TreeNodeInstance {
		return onet.VerifNode(&onet.VerifDouble{Root: root, Leaf: leaf, Priv: private, Pub: libunlynx.ZPub(private),
			Tree: &onet.Tree{Roster: &onet.Roster{Aggregate: aggregate}}, Identity: &network.ServerIdentity{}})
	}
}
`

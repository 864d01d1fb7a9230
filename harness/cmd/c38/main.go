// C38: the object-store client against a model of the store, under faults.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/brevis-network/zk-utils/common/s3api"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C38",
		Rule:        "the client on a simulated S3 in place of the network: every history of uploads, replacements and deletions over three keys (nested names) up to a depth, all objects listed under every prefix, downloaded and looked up after each step; every number of objects around the page sizes; object sizes around the part size and of several parts with seekable (also partly read) and plain readers; every kind of fault (server error, refusal, connection lost before or after the request is served, body cut short; once or for good) at every request of every operation; keys with unusual characters; two buckets; every combination of credential variables",
		Assumptions: []string{"the AWS SDK is used as it is; the simulated store follows the documented S3 behaviour of the operations used"},
	}, run)
}

var serial int64

func fresh(page int) (string, *store, *s3api.Client) {
	b := fmt.Sprintf("case%d", atomic.AddInt64(&serial, 1))
	s := newStore(b, page)
	c, err := s3api.NewClient(b)
	if err != nil {
		panic("NewClient: " + err.Error())
	}
	return b, s, c
}

var credVars = []string{"AWS_ACCESS_KEY_ID", "AWS_ACCESS_KEY", "AWS_SECRET_ACCESS_KEY", "AWS_SECRET_KEY"}

func run(c *mc.Ctx) {
	http.DefaultTransport = transport{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	d, err := os.MkdirTemp("", "verif-s3")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(d)
	os.Setenv("HOME", d)
	os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
	os.Setenv("AWS_SHARED_CREDENTIALS_FILE", d+"/credentials")
	os.Setenv("AWS_CONFIG_FILE", d+"/config")
	os.WriteFile(d+"/credentials", []byte("[default]\naws_access_key_id = FILEID\naws_secret_access_key = FILESECRET\n"), 0o600)
	credentials(c)
	for _, v := range credVars {
		os.Unsetenv(v)
	}
	os.Setenv("AWS_ACCESS_KEY_ID", "ID")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "SECRET")
	histories(c)
	pages(c)
	sizes(c)
	keys(c)
	uncleanKeys(c)
	faults(c)
}

// credentials: from the variables when an id and a secret are there (the
// longer names first), else from the machine's own configuration.
func credentials(c *mc.Ctx) {
	for i := 0; i < 16; i++ {
		c.One("credentials", fmt.Sprintf("%04b", i), func() string {
			for k, v := range credVars {
				os.Unsetenv(v)
				if i>>k&1 == 1 {
					os.Setenv(v, "ENV"+fmt.Sprint(k))
				}
			}
			b, s, cl := fresh(1000)
			defer dropStore(b)
			if err := cl.Upload("k", strings.NewReader("v")); err != nil {
				return err.Error()
			}
			want := "FILEID"
			if i>>2 != 0 {
				if i&1 == 1 {
					want = "ENV0"
				} else if i&2 == 2 {
					want = "ENV1"
				}
			}
			if s.creds[want] != 1 || len(s.creds) != 1 {
				return fmt.Sprintf("signed by %v, want %s", s.creds, want)
			}
			return ""
		})
	}
}

// check compares everything the client shows with the model.
func check(c *mc.Ctx, s *store, cl *s3api.Client, model map[string][]byte, names, prefixes []string) string {
	c.State(1)
	if len(s.objs) != len(model) {
		return fmt.Sprintf("the store has %d objects, want %d", len(s.objs), len(model))
	}
	for _, p := range prefixes {
		if m := list(cl, model, p); m != "" {
			return m
		}
	}
	for _, k := range names {
		want, ok := model[k]
		var w aws.WriteAtBuffer
		err := cl.Download(k, &w)
		if ok != (err == nil) {
			return fmt.Sprintf("Download(%q): %v", k, err)
		}
		if ok && !bytes.Equal(w.Bytes(), want) {
			return fmt.Sprintf("Download(%q) gives %d bytes, want %d", k, len(w.Bytes()), len(want))
		}
		if err := cl.HeadObject(k); ok != (err == nil) {
			return fmt.Sprintf("HeadObject(%q): %v", k, err)
		}
	}
	return ""
}

func list(cl *s3api.Client, model map[string][]byte, prefix string) string {
	l, err := cl.ListObjects(prefix)
	if err != nil {
		return fmt.Sprintf("ListObjects(%q): %v", prefix, err)
	}
	var want []string
	for k := range model {
		if strings.HasPrefix(k, prefix) {
			want = append(want, k)
		}
	}
	sort.Strings(want)
	var got []string
	for _, o := range l {
		if o == nil || o.Key == nil {
			return "ListObjects: an object without key"
		}
		if o.Size == nil || *o.Size != int64(len(model[*o.Key])) {
			return fmt.Sprintf("ListObjects: size of %q", *o.Key)
		}
		got = append(got, *o.Key)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("ListObjects(%q) gives %d of %d objects", prefix, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("ListObjects(%q): %q instead of %q", prefix, got[i], want[i])
		}
	}
	return ""
}

func histories(c *mc.Ctx) {
	names := []string{"p/1.json", "p/10.json", "p"}
	prefixes := []string{"", "p", "p/", "p/1", "p/1.json", "q"}
	const ops = 9
	depth := mc.Pick(c, 3, 5)
	n := 1
	for i := 0; i < depth; i++ {
		n *= ops
	}
	c.Each("histories", n, func(i int) string { return fmt.Sprintf("%0*s", depth, itoa9(i)) }, func(i int) string {
		b, s, cl := fresh(2)
		ob, os2, ocl := fresh(2) // another bucket stays as it is
		defer dropStore(b)
		defer dropStore(ob)
		if err := ocl.Upload(names[0], strings.NewReader("other")); err != nil {
			return err.Error()
		}
		model := map[string][]byte{}
		for step := 0; step < depth; step++ {
			op := i % ops
			i /= ops
			k := names[op%3]
			switch op / 3 {
			case 0, 1:
				v := []byte(fmt.Sprintf("value %d of %s", step, k))
				if op/3 == 1 {
					v = []byte{} // empty
				}
				if err := cl.Upload(k, bytes.NewReader(v)); err != nil {
					return fmt.Sprintf("Upload: %v", err)
				}
				model[k] = v
			case 2:
				if err := cl.Delete(k); err != nil {
					return fmt.Sprintf("Delete: %v", err)
				}
				delete(model, k)
			}
			c.Trans(1)
			if m := check(c, s, cl, model, names, prefixes); m != "" {
				return fmt.Sprintf("after step %d: %s", step, m)
			}
		}
		if len(os2.objs) != 1 || string(os2.objs[names[0]]) != "other" {
			return "the other bucket changed"
		}
		return ""
	})
}

func itoa9(i int) (s string) {
	if i == 0 {
		return "0"
	}
	for ; i > 0; i /= 9 {
		s += fmt.Sprint(i % 9)
	}
	return
}

func pages(c *mc.Ctx) {
	type cs struct{ page, n int }
	var l []cs
	for _, p := range []int{1, 2, 3, 7} {
		for n := 0; n <= 3*p+1; n++ {
			l = append(l, cs{p, n})
		}
	}
	for _, n := range []int{999, 1000, 1001, 2000, 2001, 3500, 5001, 10001, 16385, 20001, 65537} {
		l = append(l, cs{1000, n})
	}
	c.Each("pages", len(l), func(i int) string { return fmt.Sprintf("%d objects in pages of %d", l[i].n, l[i].page) }, func(i int) string {
		b, s, cl := fresh(l[i].page)
		defer dropStore(b)
		model := map[string][]byte{"other/1": {1}}
		for k := 0; k < l[i].n; k++ {
			model[s3api.ObjectKey("pre", uint64(k))] = []byte{byte(k)}
		}
		for k, v := range model {
			s.objs[k] = v
		}
		c.State(1)
		for _, p := range []string{"pre/", "pre", "other", ""} {
			if m := list(cl, model, p); m != "" {
				return m
			}
		}
		return ""
	})
	// the names of the slots' objects are distinct
	c.Each("object names", 1, func(int) string { return "" }, func(int) string {
		vs := []uint64{0, 1, 9, 10, 11, 99, 100, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		seen := map[string]bool{}
		for _, p := range []string{"", "a", "a/1", "b"} {
			for _, v := range vs {
				k := s3api.ObjectKey(p, v)
				if k != p+"/"+fmt.Sprint(v)+".json" || seen[k] {
					return fmt.Sprintf("%s %d: %s", p, v, k)
				}
				seen[k] = true
			}
		}
		return ""
	})
}

// plain hides every method but Read.
type plain struct{ io.Reader }

type failing struct {
	r io.Reader
}

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("source failed")
	}
	return n, err
}

func fill(n int) []byte {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func sizes(c *mc.Ctx) {
	const mb5 = 5 << 20
	ns := mc.Pick(c, []int{0, 1, 1000, mb5 - 1, mb5, mb5 + 1, 2*mb5 + 3, 7*mb5 + 1}, []int{0, 1, 2, 1000, 1 << 20, mb5 - 1, mb5, mb5 + 1, 2*mb5 - 1, 2 * mb5, 2*mb5 + 1, 6*mb5 + 17, 30*mb5 + 1})
	c.Each("sizes", len(ns)*4, func(i int) string { return fmt.Sprintf("%d bytes, reader %d", ns[i/4], i%4) }, func(i int) string {
		b, s, cl := fresh(1000)
		defer dropStore(b)
		v := fill(ns[i/4])
		var r io.Reader = bytes.NewReader(v)
		switch i % 4 {
		case 1:
			r = plain{r}
		case 2:
			r = plain{&failing{r}}
		case 3: // the caller has read the beginning already
			half := bytes.NewReader(append(fill(77), v...))
			half.Seek(77, io.SeekStart)
			r = half
		}
		err := cl.Upload("k", r)
		c.State(1)
		if i%4 == 2 {
			if err == nil {
				return "a failing source is taken for a complete one"
			}
			if len(s.objs) != 0 {
				return "an incomplete object is stored"
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		return check(c, s, cl, map[string][]byte{"k": v}, []string{"k"}, []string{""})
	})
}

func keys(c *mc.Ctx) {
	ks := []string{"a b", "a+b", "a%20b", "ü/€", "a?b", "a&b=c", "a#b", "<x>", "a//b", "a/./b", "a/", "~x", "a'b\"", strings.Repeat("k", 900)}
	c.Each("keys", len(ks), func(i int) string { return ks[i] }, func(i int) string {
		b, s, cl := fresh(1000)
		defer dropStore(b)
		if err := cl.Upload(ks[i], strings.NewReader("v")); err != nil {
			return err.Error()
		}
		if unclean(ks[i]) {
			return roundTrip(s, cl, ks[i])
		}
		if m := check(c, s, cl, map[string][]byte{ks[i]: []byte("v")}, []string{ks[i], ks[i] + "x"}, []string{"", ks[i], ks[i][:1]}); m != "" {
			return m
		}
		if err := cl.Delete(ks[i]); err != nil {
			return err.Error()
		}
		return check(c, s, cl, nil, []string{ks[i]}, []string{""})
	})
}

// unclean: keys that path cleaning would change.
func unclean(k string) bool { return strings.Contains(k, "//") || strings.Contains(k, "/.") }

func roundTrip(s *store, cl *s3api.Client, k string) string {
	w := aws.NewWriteAtBuffer(nil)
	if err := cl.Download(k, w); err != nil || string(w.Bytes()) != "v" {
		return fmt.Sprintf("Download gives %q, %v", w.Bytes(), err)
	}
	if err := cl.HeadObject(k); err != nil {
		return "HeadObject: " + err.Error()
	}
	if err := cl.Delete(k); err != nil {
		return err.Error()
	}
	if len(s.objs) != 0 {
		return "Delete leaves the object"
	}
	return ""
}

// uncleanKeys: an object is stored under the very key it was given.
func uncleanKeys(c *mc.Ctx) {
	ks := []string{"a//b", "a/./b"}
	c.Each("object stored under its key", len(ks), func(i int) string { return ks[i] }, func(i int) string {
		b, s, cl := fresh(1000)
		defer dropStore(b)
		if err := cl.Upload(ks[i], strings.NewReader("v")); err != nil {
			return err.Error()
		}
		c.State(1)
		if _, ok := s.objs[ks[i]]; !ok || len(s.objs) != 1 {
			for k := range s.objs {
				return fmt.Sprintf("stored as %q", k)
			}
			return "not stored"
		}
		return ""
	})
}

// faults: the operation fails with an error or takes effect.
func faults(c *mc.Ctx) {
	kinds := []string{"500", "403", "cut", "lost", "short"}
	opsN := []string{"list", "upload", "download", "head", "delete", "upload large", "download large"}
	type cs struct {
		op, kind string
		at       int
		forever  bool
	}
	var l []cs
	for _, o := range opsN {
		for _, k := range kinds {
			top := map[string]int{"list": 3, "upload large": 5, "download large": 3}[o]
			if top == 0 {
				top = 2
			}
			for at := 0; at < top; at++ {
				l = append(l, cs{o, k, at, false}, cs{o, k, at, true})
			}
		}
	}
	big := fill(11 << 20)
	c.Each("faults", len(l), func(i int) string { return fmt.Sprintf("%+v", l[i]) }, func(i int) string {
		x := l[i]
		b, s, cl := fresh(2)
		defer dropStore(b)
		old := map[string][]byte{"a": []byte("old a"), "b": []byte("b"), "c": []byte("ccc"), "d": {}, "e": big}
		for k, v := range old {
			s.objs[k] = v
		}
		hit := false
		s.fault = func(n int, r *http.Request) string {
			if n == x.at || x.forever && n > x.at {
				hit = true
				return x.kind
			}
			return ""
		}
		c.State(1)
		c.Trans(1)
		want := old["a"]
		var err error
		m := ""
		switch x.op {
		case "list":
			got, e := cl.ListObjects("")
			err = e
			if e == nil && len(got) != 5 {
				m = fmt.Sprintf("a list of %d objects of 5 without an error", len(got))
			}
		case "upload", "upload large":
			want = []byte("new a")
			if x.op == "upload large" {
				want = big
			}
			err = cl.Upload("a", bytes.NewReader(want))
		case "download", "download large":
			k := map[string]string{"download": "a", "download large": "e"}[x.op]
			var w aws.WriteAtBuffer
			err = cl.Download(k, &w)
			if err == nil && !bytes.Equal(w.Bytes(), old[k]) {
				m = fmt.Sprintf("%d bytes of %d without an error", len(w.Bytes()), len(old[k]))
			}
		case "head":
			err = cl.HeadObject("a")
		case "delete":
			err = cl.Delete("a")
			want = nil
		}
		if m != "" {
			return m
		}
		s.fault = nil
		// an error leaves the old object or the new one
		got, have := s.objs["a"]
		done := have == (want != nil) && bytes.Equal(got, want)
		before := have && bytes.Equal(got, old["a"])
		if err == nil && !done || err != nil && !done && !before {
			return fmt.Sprintf("error %v with object %d bytes", err, len(got))
		}
		// a fault for good at the last request is an error; a server error or a lost
		// connection, once, is tried again
		if hit && x.forever && (x.kind == "500" || x.kind == "cut" || x.kind == "403") && err == nil && x.op != "head" {
			return "no error though every request failed"
		}
		if hit && !x.forever && (x.kind == "500" || x.kind == "cut") && err != nil && !strings.Contains(x.op, "large") {
			return "a passing fault is not tried again: " + err.Error()
		}
		if !hit && err != nil {
			return "error without a fault: " + err.Error()
		}
		for _, k := range []string{"b", "c", "d", "e"} {
			if !bytes.Equal(s.objs[k], old[k]) {
				return "another object changed"
			}
		}
		return ""
	})
	c.Each("missing", 4, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		var err error
		if i%2 == 0 { // no such object
			b, _, cl := fresh(2)
			defer dropStore(b)
			if i == 0 {
				err = cl.Download("x", &aws.WriteAtBuffer{})
			} else {
				err = cl.HeadObject("x")
			}
		} else { // no such bucket
			cl, e := s3api.NewClient("nobucket")
			if e != nil {
				return e.Error()
			}
			if i == 1 {
				_, err = cl.ListObjects("")
			} else {
				err = cl.Upload("x", strings.NewReader("v"))
			}
		}
		if err == nil {
			return "no error"
		}
		return ""
	})
}

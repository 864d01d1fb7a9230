package main

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// store is one bucket of a small S3: the object operations the service
// documents, with page limits, ranges, multipart uploads and injected faults.
type store struct {
	mu    sync.Mutex
	objs  map[string][]byte
	parts map[string]map[int][]byte // upload id
	page  int                       // keys per page
	n     int                       // requests served
	fault func(n int, r *http.Request) string
	creds map[string]int // access keys seen
	log   []string
}

var (
	storesMu sync.Mutex
	stores   = map[string]*store{}
)

func newStore(bucket string, page int) *store {
	s := &store{objs: map[string][]byte{}, parts: map[string]map[int][]byte{}, page: page, creds: map[string]int{}}
	storesMu.Lock()
	stores[bucket] = s
	storesMu.Unlock()
	return s
}
func dropStore(bucket string) {
	storesMu.Lock()
	delete(stores, bucket)
	storesMu.Unlock()
}

// transport takes the place of the network.
type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
		if r.ContentLength >= 0 && int64(len(b)) != r.ContentLength {
			return nil, errors.New("body does not have the announced length")
		}
	}
	host, path := r.URL.Hostname(), r.URL.EscapedPath()
	bucket, rest, _ := strings.Cut(host, ".")
	if bucket == "s3" { // the bucket is in the path
		bucket, path, _ = strings.Cut(strings.TrimPrefix(path, "/"), "/")
		path = "/" + path
	} else if !strings.HasPrefix(rest, "s3") {
		return nil, fmt.Errorf("no such host %s", host)
	}
	storesMu.Lock()
	s := stores[bucket]
	storesMu.Unlock()
	if s == nil {
		return xmlErr(r, 404, "NoSuchBucket"), nil
	}
	key, err := url.PathUnescape(strings.TrimPrefix(path, "/"))
	if err != nil {
		return xmlErr(r, 400, "InvalidURI"), nil
	}
	s.mu.Lock()
	n := s.n
	s.n++
	s.log = append(s.log, r.Method+" "+r.URL.RequestURI())
	if a := r.Header.Get("Authorization"); strings.Contains(a, "Credential=") {
		_, a, _ = strings.Cut(a, "Credential=")
		a, _, _ = strings.Cut(a, "/")
		s.creds[a]++
	} else {
		s.creds["none"]++
	}
	f := ""
	if s.fault != nil {
		f = s.fault(n, r)
	}
	s.mu.Unlock()
	switch f {
	case "500":
		return xmlErr(r, 500, "InternalError"), nil
	case "403":
		return xmlErr(r, 403, "AccessDenied"), nil
	case "cut": // the connection ends
		return nil, errors.New("connection reset by peer")
	case "lost": // the request is served, the answer lost
		s.serve(r, key, body)
		return nil, errors.New("connection reset by peer")
	}
	resp := s.serve(r, key, body)
	if f == "short" && resp.StatusCode < 300 && resp.Body != http.NoBody {
		b, _ := io.ReadAll(resp.Body)
		if len(b) > 0 {
			b = b[:len(b)/2]
		}
		resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b), errReader{}))
	}
	return resp, nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func mk(r *http.Request, code int, h http.Header, body []byte) *http.Response {
	if h == nil {
		h = http.Header{}
	}
	h.Set("Content-Length", strconv.Itoa(len(body)))
	h.Set("x-amz-request-id", "1")
	var b io.ReadCloser = http.NoBody
	if len(body) > 0 && r.Method != "HEAD" {
		b = io.NopCloser(bytes.NewReader(body))
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: int64(len(body)), Request: r}
}
func xmlErr(r *http.Request, code int, c string) *http.Response {
	return mk(r, code, http.Header{"Content-Type": {"application/xml"}}, []byte("<?xml version=\"1.0\"?><Error><Code>"+c+"</Code><Message>"+c+"</Message><RequestId>1</RequestId></Error>"))
}
func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}
func etag(b []byte) string { h := md5.Sum(b); return "\"" + hex.EncodeToString(h[:]) + "\"" }

func (s *store) serve(r *http.Request, key string, body []byte) *http.Response {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := r.URL.Query()
	_, uploads := q["uploads"]
	id := q.Get("uploadId")
	switch {
	case key == "" && r.Method == "GET":
		return s.list(r, q)
	case r.Method == "POST" && uploads:
		id := fmt.Sprintf("u%d", s.n)
		s.parts[id] = map[int][]byte{}
		return mk(r, 200, nil, []byte("<InitiateMultipartUploadResult><Key>"+esc(key)+"</Key><UploadId>"+id+"</UploadId></InitiateMultipartUploadResult>"))
	case r.Method == "PUT" && id != "":
		k, _ := strconv.Atoi(q.Get("partNumber"))
		if s.parts[id] == nil {
			return xmlErr(r, 404, "NoSuchUpload")
		}
		s.parts[id][k] = body
		return mk(r, 200, http.Header{"Etag": {etag(body)}}, nil)
	case r.Method == "POST" && id != "":
		var c struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if xml.Unmarshal(body, &c) != nil || s.parts[id] == nil {
			return xmlErr(r, 400, "MalformedXML")
		}
		var all []byte
		last := 0
		for _, p := range c.Part {
			b, ok := s.parts[id][p.PartNumber]
			if !ok || strings.Trim(p.ETag, "\"") != strings.Trim(etag(b), "\"") || p.PartNumber <= last {
				return xmlErr(r, 400, "InvalidPart")
			}
			last = p.PartNumber
			all = append(all, b...)
		}
		s.objs[key] = all
		delete(s.parts, id)
		return mk(r, 200, nil, []byte("<CompleteMultipartUploadResult><Key>"+esc(key)+"</Key><ETag>"+esc(etag(all))+"</ETag></CompleteMultipartUploadResult>"))
	case r.Method == "DELETE" && id != "":
		delete(s.parts, id)
		return mk(r, 204, nil, nil)
	case r.Method == "PUT":
		s.objs[key] = body
		return mk(r, 200, http.Header{"Etag": {etag(body)}}, nil)
	case r.Method == "DELETE":
		delete(s.objs, key)
		return mk(r, 204, nil, nil)
	case r.Method == "HEAD":
		b, ok := s.objs[key]
		if !ok {
			return mk(r, 404, nil, nil)
		}
		return mk(r, 200, http.Header{"Etag": {etag(b)}}, b)
	case r.Method == "GET":
		b, ok := s.objs[key]
		if !ok {
			return xmlErr(r, 404, "NoSuchKey")
		}
		h := http.Header{"Etag": {etag(b)}}
		if rg := r.Header.Get("Range"); rg != "" {
			var lo, hi int
			if k, _ := fmt.Sscanf(rg, "bytes=%d-%d", &lo, &hi); k != 2 || lo > hi {
				return mk(r, 200, h, b)
			}
			if lo >= len(b) {
				return xmlErr(r, 416, "InvalidRange")
			}
			if hi >= len(b) {
				hi = len(b) - 1
			}
			h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", lo, hi, len(b)))
			return mk(r, 206, h, b[lo:hi+1])
		}
		return mk(r, 200, h, b)
	}
	return xmlErr(r, 400, "NotImplemented")
}

func (s *store) list(r *http.Request, q url.Values) *http.Response {
	v2 := q.Get("list-type") == "2"
	page := s.page
	if m, err := strconv.Atoi(q.Get("max-keys")); err == nil && m < page {
		page = m
	}
	after := q.Get("marker")
	if v2 {
		after = q.Get("start-after")
		if t := q.Get("continuation-token"); t != "" {
			b, _ := hex.DecodeString(t)
			after = string(b)
		}
	}
	var ks []string
	for k := range s.objs {
		if strings.HasPrefix(k, q.Get("prefix")) && k > after {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	more := len(ks) > page
	if more {
		ks = ks[:page]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult><Name>b</Name><Prefix>%s</Prefix><MaxKeys>%d</MaxKeys><IsTruncated>%v</IsTruncated>", esc(q.Get("prefix")), page, more)
	if v2 && more {
		fmt.Fprintf(&b, "<NextContinuationToken>%x</NextContinuationToken>", ks[len(ks)-1])
	}
	for _, k := range ks {
		e := esc(k)
		if q.Get("encoding-type") == "url" {
			e = url.QueryEscape(k)
		}
		fmt.Fprintf(&b, "<Contents><Key>%s</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>%s</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>", e, esc(etag(s.objs[k])), len(s.objs[k]))
	}
	b.WriteString("</ListBucketResult>")
	return mk(r, 200, http.Header{"Content-Type": {"application/xml"}}, b.Bytes())
}

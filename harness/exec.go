package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"google.golang.org/protobuf/encoding/protojson"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// env is one instance of the service over some storage
type env struct {
	ctx     context.Context // of the request, if it is not Background
	backend string
	scratch string
	kv      *ordKV
	mem     rcdb.KVStore
	dir     string
	dirs    int
	z       *zanzi.Zanzi
	pol     api.PolicyServiceServer
	graph   api.RelationGraphServer
	conns   []*grpc.ClientConn
	addr    string
	timeout time.Duration

	daemon *os.Process
	gone   chan struct{}

	verbose      bool
	starts, ends []time.Time
	concurrent   bool
}

func newEnv(backend, scratch string, timeout time.Duration, verbose bool) (*env, error) {
	e := &env{backend: backend, scratch: scratch, timeout: timeout, verbose: verbose}
	switch backend {
	case "ord":
		e.kv = newOrdKV()
	case "mem":
		e.mem = rcdb.NewMemKV()
	case "leveldb":
		e.dir = filepath.Join(scratch, "db~0")
		if err := os.MkdirAll(e.dir, 0o755); err != nil {
			return nil, err
		}
	case "daemon":
		e.dir = filepath.Join(scratch, "data")
		if err := os.MkdirAll(e.dir, 0o755); err != nil {
			return nil, err
		}
	case "default", "dev":
	default:
		return nil, fmt.Errorf("backend %v", backend)
	}
	return e, e.open()
}

// startDaemon starts the server as a process of its own
func (e *env) startDaemon() error {
	var err error
	for try := 0; try < 20; try++ {
		// no listener is used to find a port: a process which is just being started may keep it open for a moment
		addr := ownAddress()
		cmd := exec.Command(daemonPath, "--address", addr, "--data_dir", e.dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err = cmd.Start(); err != nil {
			return err
		}
		gone := make(chan struct{})
		go func() { cmd.Wait(); close(gone) }()
		deadline := time.Now().Add(20 * time.Second)
		for time.Now().Before(deadline) {
			c, dialErr := net.DialTimeout("tcp", addr, time.Second)
			if dialErr == nil {
				c.Close()
				e.addr, e.daemon, e.gone = addr, cmd.Process, gone
				return nil
			}
			select {
			case <-gone:
				deadline = time.Now()
			case <-time.After(3 * time.Millisecond):
			}
		}
		cmd.Process.Kill()
		<-gone
		err = errors.New("the server does not come up")
	}
	return err
}

// killDaemon ends the server without notice
func (e *env) killDaemon() {
	if e.daemon != nil {
		e.daemon.Kill()
		<-e.gone
		e.daemon = nil
	}
}

var daemonPath string

var hosts atomic.Uint32

// ownAddress returns an address of the loopback network which nobody else uses
func ownAddress() string {
	n := hosts.Add(1)
	pid := uint32(os.Getpid())
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, n/250%250, 1+n%250, 20000+pid/250%10000)
}

// formatting is a logger which does the work of one and shows nothing
type formatting struct{}

func (formatting) put(format string, args ...any) { fmt.Fprintf(io.Discard, format, args...) }

func (f formatting) Debugf(format string, args ...any) { f.put(format, args...) }
func (f formatting) Infof(format string, args ...any)  { f.put(format, args...) }
func (f formatting) Warnf(format string, args ...any)  { f.put(format, args...) }
func (f formatting) Errorf(format string, args ...any) { f.put(format, args...) }

// notStarted says that zanzi refused to start
type notStarted struct{ error }

func (e *env) open() error {
	for _, c := range e.conns {
		c.Close()
	}
	e.conns, e.addr = nil, ""
	if e.backend == "daemon" {
		// every request goes to the server
		e.pol, e.graph = api.UnimplementedPolicyServiceServer{}, api.UnimplementedRelationGraphServer{}
		return e.startDaemon()
	}
	logger := zanzi.WithLogger(&types.NoopLogger{})
	if e.verbose {
		logger = zanzi.WithLogger(formatting{})
	}
	var z zanzi.Zanzi
	var err error
	switch e.backend {
	case "ord":
		z, err = zanzi.New(logger, zanzi.WithKVStore(e.kv))
	case "mem":
		z, err = zanzi.New(logger, zanzi.WithKVStore(e.mem))
	case "leveldb":
		z, err = zanzi.New(logger, zanzi.WithDefaultKVStore(e.dir))
	case "dev":
		z, err = zanzi.New(zanzi.WithDevelopmentConfig())
	default:
		z, err = zanzi.New(logger)
	}
	if err != nil {
		return notStarted{err}
	}
	e.z = &z
	e.pol = z.GetPolicyService()
	e.graph = z.GetRelationGraphService()
	return nil
}

func copyDir(from, to string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	files, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, f := range files {
		a, b := filepath.Join(from, f.Name()), filepath.Join(to, f.Name())
		if f.IsDir() {
			if err := copyDir(a, b); err != nil {
				return err
			}
			continue
		}
		if f.Name() == "LOCK" {
			continue
		}
		in, err := os.Open(a)
		if err != nil {
			return err
		}
		out, err := os.Create(b)
		if err == nil {
			_, err = io.Copy(out, in)
			out.Close()
		}
		in.Close()
		if err != nil {
			return err
		}
	}
	return nil
}

// reopen abandons the instance and opens another over what it stored
func (e *env) reopen() error {
	switch e.backend {
	case "ord":
		e.kv = e.kv.clone()
	case "leveldb":
		return e.reopenDir()
	case "daemon":
		e.killDaemon()
	}
	return e.open()
}

// listing describes the files of a directory
func listing(dir string) string {
	out := ""
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			out += p + " gone\n"
			return nil
		}
		if !i.IsDir() {
			out += fmt.Sprintln(p, i.Size(), i.ModTime().UnixNano())
		}
		return nil
	})
	return out
}

var errUnstable = errors.New("the files of the database keep changing")

// reopenDir opens a copy of the database, whose files may be compacted in the background meanwhile
func (e *env) reopenDir() error {
	var err error
	from := e.dir
	for try := 0; try < 50; try++ {
		e.dirs++
		next := filepath.Join(e.scratch, fmt.Sprintf("db~%d", e.dirs))
		before := listing(from)
		err = copyDir(from, next)
		if err != nil || listing(from) != before {
			err = errUnstable
			time.Sleep(20 * time.Millisecond)
			continue
		}
		e.dir = next
		if err = e.open(); err == nil {
			return nil
		}
	}
	return err
}

func (e *env) close() {
	for _, c := range e.conns {
		c.Close()
	}
	e.killDaemon()
	if e.scratch != "" {
		os.RemoveAll(e.scratch)
	}
}

func (e *env) serve() error {
	var err error
	for try := 0; try < 20; try++ {
		var l net.Listener
		l, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		addr := l.Addr().String()
		l.Close()
		srv := server.NewServer(addr)
		if err = srv.Init(e.z); err != nil {
			continue
		}
		go srv.Run()
		e.addr = addr
		return nil
	}
	return err
}

// client returns services which send their requests through connection n of the server
func (e *env) client(n int) (api.PolicyServiceClient, api.RelationGraphClient, error) {
	if e.addr == "" {
		if err := e.serve(); err != nil {
			return nil, nil, err
		}
	}
	for len(e.conns) <= n {
		c, err := grpc.Dial(e.addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			return nil, nil, err
		}
		e.conns = append(e.conns, c)
	}
	return api.NewPolicyServiceClient(e.conns[n]), api.NewRelationGraphClient(e.conns[n]), nil
}

// at returns the step during which a time was taken
func (e *env) at(ts *timestamppb.Timestamp) int {
	if e.starts == nil {
		return 0
	}
	if ts == nil {
		return -2
	}
	t := ts.AsTime()
	for i := len(e.starts) - 1; i >= 0; i-- {
		end := time.Now()
		if i < len(e.ends) {
			end = e.ends[i]
		}
		if !t.Before(e.starts[i].Truncate(0)) && !t.After(end) {
			return i + 1
		}
	}
	return -1
}

type badRequest struct{ msg string }

// scramble overwrites a message
func scramble(m proto.Message) {
	defer func() { recover() }() // messages with nil parts
	if m == nil {
		return
	}
	var walk func(r protoreflect.Message)
	value := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) (protoreflect.Value, bool) {
		switch fd.Kind() {
		case protoreflect.MessageKind, protoreflect.GroupKind:
			walk(v.Message())
		case protoreflect.StringKind:
			return protoreflect.ValueOfString("scrambled"), true
		case protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0x55
			}
		case protoreflect.Uint64Kind:
			return protoreflect.ValueOfUint64(987654), true
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(987654), true
		}
		return v, false
	}
	walk = func(r protoreflect.Message) {
		if !r.IsValid() {
			return
		}
		r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsList():
				l := v.List()
				for i := 0; i < l.Len(); i++ {
					if x, ok := value(fd, l.Get(i)); ok {
						l.Set(i, x)
					}
				}
				if l.Len() > 1 {
					l.Set(0, l.Get(l.Len()-1))
				}
			case fd.IsMap():
				v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
					if y, ok := value(fd.MapValue(), x); ok {
						v.Map().Set(k, y)
					}
					return true
				})
			default:
				if x, ok := value(fd, v); ok {
					r.Set(fd, x)
				}
			}
			return true
		})
	}
	walk(m.ProtoReflect())
}

var cliPath string

// commandLine sends a request with the command line client
func commandLine(addr string, q, a proto.Message) error {
	in, err := protojson.Marshal(q)
	if err != nil {
		panic(badRequest{fmt.Sprintf("marshal: %v", err)})
	}
	service := "policy-service"
	method := ""
	for i, c := range strings.TrimSuffix(string(q.ProtoReflect().Descriptor().Name()), "Request") {
		if unicode.IsUpper(c) && i > 0 {
			method += "-"
		}
		method += string(unicode.ToLower(c))
	}
	switch method {
	case "check", "expand", "explain-check", "dump-relationships":
		service = "relation-graph"
	}
	cmd := exec.Command(cliPath, service, method, "--server-addr", addr, "--request-file", "-", "--response-format", "json")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	return protojson.Unmarshal(out, a)
}

func (e *env) context() context.Context {
	if e.ctx != nil {
		return e.ctx
	}
	return context.Background()
}

// invoke sends one request by the given way
func invoke[Q, A proto.Message](ctx context.Context, e *env, via string, q Q, fresh func() (Q, A),
	direct func(context.Context, Q) (A, error), remote func(n int, q Q) (A, error)) (A, error) {
	var zero A
	if e.backend == "daemon" && via != "grpc2" && via != "cli" {
		via = "grpc"
	}
	switch via {
	case "", "direct":
		a, err := direct(ctx, q)
		if err != nil {
			scramble(q)
			return zero, err
		}
		// messages belong to the client: what it does with them afterwards has no effect
		kept := proto.Clone(a).(A)
		scramble(a)
		scramble(q)
		return kept, nil
	case "wire":
		b, err := proto.Marshal(q)
		if err != nil {
			panic(badRequest{fmt.Sprintf("marshal: %v", err)})
		}
		q2, a2 := fresh()
		if err := proto.Unmarshal(b, q2); err != nil {
			panic(badRequest{fmt.Sprintf("unmarshal: %v", err)})
		}
		a, err := direct(ctx, q2)
		if err != nil {
			return zero, err
		}
		b, err = proto.Marshal(a)
		if err != nil {
			return zero, fmt.Errorf("response does not marshal: %w", err)
		}
		return a2, proto.Unmarshal(b, a2)
	case "cli":
		if _, _, err := e.client(0); err != nil {
			panic(badRequest{err.Error()})
		}
		_, a2 := fresh()
		return a2, commandLine(e.addr, q, a2)
	case "grpc":
		return remote(0, q)
	case "grpc2":
		return remote(1, q)
	}
	panic(badRequest{"via " + via})
}

// call runs method M of a service by the given way
func callPol[Q, A proto.Message](e *env, via string, q Q, fresh func() (Q, A),
	direct func(context.Context, Q) (A, error), remote func(api.PolicyServiceClient, context.Context, Q) (A, error)) (A, error) {
	ctx := e.context()
	return invoke(ctx, e, via, q, fresh, direct, func(n int, q Q) (A, error) {
		c, _, err := e.client(n)
		if err != nil {
			panic(badRequest{err.Error()})
		}
		return remote(c, ctx, q)
	})
}

func callGraph[Q, A proto.Message](e *env, via string, q Q, fresh func() (Q, A),
	direct func(context.Context, Q) (A, error), remote func(api.RelationGraphClient, context.Context, Q) (A, error)) (A, error) {
	ctx := e.context()
	return invoke(ctx, e, via, q, fresh, direct, func(n int, q Q) (A, error) {
		_, c, err := e.client(n)
		if err != nil {
			panic(badRequest{err.Error()})
		}
		return remote(c, ctx, q)
	})
}

var explainFormats = map[string]api.ExplainFormat{"json": api.ExplainFormat_JSON, "dot": api.ExplainFormat_DOT, "spew": api.ExplainFormat_SPEW}

func explainFormat(v any) api.ExplainFormat {
	f, ok := explainFormats[v.(string)]
	if !ok {
		return api.ExplainFormat(9)
	}
	return f
}

func formatName(f api.ExplainFormat) string {
	for k, v := range explainFormats {
		if v == f {
			return k
		}
	}
	return "?"
}

func (e *env) policyRecord(r *domain.PolicyRecord) obj {
	return obj{"p": policyJSON(r.GetPolicy()), "app": hexOf(r.GetAppData()), "at": e.at(r.GetCreatedAt())}
}

func (e *env) relationshipRecord(r *domain.RelationshipRecord) obj {
	return obj{"pid": enc(r.GetPolicyId()), "o": nodeObject(r.GetRelationship()), "s": nodeSubject(r.GetRelationship().GetSubject()),
		"app": hexOf(r.GetAppData()), "at": e.at(r.GetCreatedAt())}
}

var failed = obj{"r": "err"}

// do executes one request and returns the response in the form of the specification
func (e *env) do(step obj) obj {
	via, _ := step["via"].(string)
	vn, _ := step["v"].(float64)
	v := &variant{x: uint64(int64(vn))}
	v.builder, _ = step["bld"].(bool)
	pid := ""
	if s, ok := step["pid"]; ok {
		pid = str(s)
	}
	switch step["op"] {
	case "CreatePolicy":
		q := &api.CreatePolicyRequest{PolicyDefinition: v.definition(step["def"].(obj)), AppData: hexBytes(step["app"])}
		a, err := callPol(e, via, q, func() (*api.CreatePolicyRequest, *api.CreatePolicyResponse) {
			return &api.CreatePolicyRequest{}, &api.CreatePolicyResponse{}
		}, e.pol.CreatePolicy, func(c api.PolicyServiceClient, ctx context.Context, q *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
			return c.CreatePolicy(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "rec": e.policyRecord(a.GetRecord())}
	case "UpdatePolicy":
		q := &api.UpdatePolicyRequest{PolicyDefinition: v.definition(step["def"].(obj)), AppData: hexBytes(step["app"])}
		_, err := callPol(e, via, q, func() (*api.UpdatePolicyRequest, *api.UpdatePolicyResponse) {
			return &api.UpdatePolicyRequest{}, &api.UpdatePolicyResponse{}
		}, e.pol.UpdatePolicy, func(c api.PolicyServiceClient, ctx context.Context, q *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
			return c.UpdatePolicy(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok"}
	case "DeletePolicy":
		q := &api.DeletePolicyRequest{Id: str(step["id"])}
		a, err := callPol(e, via, q, func() (*api.DeletePolicyRequest, *api.DeletePolicyResponse) {
			return &api.DeletePolicyRequest{}, &api.DeletePolicyResponse{}
		}, e.pol.DeletePolicy, func(c api.PolicyServiceClient, ctx context.Context, q *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
			return c.DeletePolicy(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "found": a.GetFound(), "n": a.GetRelationshipsRemoved()}
	case "GetPolicy":
		q := &api.GetPolicyRequest{Id: str(step["id"])}
		a, err := callPol(e, via, q, func() (*api.GetPolicyRequest, *api.GetPolicyResponse) {
			return &api.GetPolicyRequest{}, &api.GetPolicyResponse{}
		}, e.pol.GetPolicy, func(c api.PolicyServiceClient, ctx context.Context, q *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
			return c.GetPolicy(ctx, q)
		})
		if err != nil {
			return failed
		}
		if a.GetRecord() == nil {
			return obj{"r": "ok", "found": false}
		}
		return obj{"r": "ok", "found": true, "rec": e.policyRecord(a.Record)}
	case "ListPolicyIds":
		q := &api.ListPolicyIdsRequest{}
		a, err := callPol(e, via, q, func() (*api.ListPolicyIdsRequest, *api.ListPolicyIdsResponse) {
			return &api.ListPolicyIdsRequest{}, &api.ListPolicyIdsResponse{}
		}, e.pol.ListPolicyIds, func(c api.PolicyServiceClient, ctx context.Context, q *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
			return c.ListPolicyIds(ctx, q)
		})
		if err != nil {
			return failed
		}
		ids := []any{}
		for _, r := range a.GetRecords() {
			ids = append(ids, enc(r.GetId()))
		}
		return obj{"r": "ok", "ids": ids}
	case "SetRelationship":
		q := &api.SetRelationshipRequest{PolicyId: pid, Relationship: v.relationship(arr(step["o"]), arr(step["s"])), AppData: hexBytes(step["app"])}
		a, err := callPol(e, via, q, func() (*api.SetRelationshipRequest, *api.SetRelationshipResponse) {
			return &api.SetRelationshipRequest{}, &api.SetRelationshipResponse{}
		}, e.pol.SetRelationship, func(c api.PolicyServiceClient, ctx context.Context, q *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
			return c.SetRelationship(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "over": a.GetRecordOverwritten()}
	case "DeleteRelationship":
		q := &api.DeleteRelationshipRequest{PolicyId: pid, Relationship: v.relationship(arr(step["o"]), arr(step["s"]))}
		a, err := callPol(e, via, q, func() (*api.DeleteRelationshipRequest, *api.DeleteRelationshipResponse) {
			return &api.DeleteRelationshipRequest{}, &api.DeleteRelationshipResponse{}
		}, e.pol.DeleteRelationship, func(c api.PolicyServiceClient, ctx context.Context, q *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
			return c.DeleteRelationship(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "found": a.GetFound()}
	case "GetRelationship":
		q := &api.GetRelationshipRequest{PolicyId: pid, Relationship: v.relationship(arr(step["o"]), arr(step["s"]))}
		a, err := callPol(e, via, q, func() (*api.GetRelationshipRequest, *api.GetRelationshipResponse) {
			return &api.GetRelationshipRequest{}, &api.GetRelationshipResponse{}
		}, e.pol.GetRelationship, func(c api.PolicyServiceClient, ctx context.Context, q *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
			return c.GetRelationship(ctx, q)
		})
		if err != nil {
			return failed
		}
		if a.GetRecord() == nil {
			return obj{"r": "ok", "found": false}
		}
		return obj{"r": "ok", "found": true, "rec": e.relationshipRecord(a.Record)}
	case "FindRelationships":
		q := &api.FindRelationshipRecordsRequest{PolicyId: pid, Selector: v.selector(step["sel"].(obj))}
		a, err := callPol(e, via, q, func() (*api.FindRelationshipRecordsRequest, *api.FindRelationshipRecordsResponse) {
			return &api.FindRelationshipRecordsRequest{}, &api.FindRelationshipRecordsResponse{}
		}, e.pol.FindRelationshipRecords, func(c api.PolicyServiceClient, ctx context.Context, q *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
			return c.FindRelationshipRecords(ctx, q)
		})
		if err != nil {
			return failed
		}
		recs := []any{}
		for _, r := range a.GetResult().GetRecords() {
			recs = append(recs, e.relationshipRecord(r))
		}
		return obj{"r": "ok", "recs": recs}
	case "DeleteRelationships":
		q := &api.DeleteRelationshipsRequest{PolicyId: pid, Selector: v.selector(step["sel"].(obj))}
		a, err := callPol(e, via, q, func() (*api.DeleteRelationshipsRequest, *api.DeleteRelationshipsResponse) {
			return &api.DeleteRelationshipsRequest{}, &api.DeleteRelationshipsResponse{}
		}, e.pol.DeleteRelationships, func(c api.PolicyServiceClient, ctx context.Context, q *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
			return c.DeleteRelationships(ctx, q)
		})
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "n": a.GetRecordsAffected()}
	case "Check":
		auth, err := e.check(via, pid, (&variant{x: uint64(int64(vn)), builder: v.builder}).accessRequest(arr(step["o"]), arr(step["u"])))
		if err != nil {
			return failed
		}
		return obj{"r": "ok", "auth": auth}
	case "SetMany":
		n := 0
		for _, x := range arr(step["es"]) {
			one := obj{"op": "SetRelationship", "pid": step["pid"], "o": arr(x)[0], "s": arr(x)[1], "app": step["app"]}
			if via, ok := step["via"]; ok {
				one["via"] = via
			}
			r := e.do(one)
			if r["r"] != "ok" {
				return r
			}
			if r["over"] == true {
				n++
			}
		}
		return obj{"r": "ok", "n": n}
	case "CheckMatrix":
		as := []any{}
		for _, x := range arr(step["qs"]) {
			auth, err := e.check(via, pid, v.accessRequest(arr(arr(x)[0]), arr(arr(x)[1])))
			switch {
			case err != nil:
				as = append(as, "err")
			case auth:
				as = append(as, "t")
			default:
				as = append(as, "f")
			}
		}
		return obj{"r": "ok", "as": as}
	case "Explain":
		q := &api.ExplainCheckRequest{PolicyId: pid, AccessRequest: v.accessRequest(arr(step["o"]), arr(step["u"])), Format: explainFormat(step["fmt"])}
		a, err := callGraph(e, via, q, func() (*api.ExplainCheckRequest, *api.ExplainCheckResponse) {
			return &api.ExplainCheckRequest{}, &api.ExplainCheckResponse{}
		}, e.graph.ExplainCheck, func(c api.RelationGraphClient, ctx context.Context, q *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
			return c.ExplainCheck(ctx, q)
		})
		if err != nil {
			return failed
		}
		out := obj{"r": "ok", "auth": a.GetAuthorized(), "fmt": formatName(a.GetFormat())}
		if !e.concurrent && (e.kv == nil || !e.kv.armed()) {
			out["plain"] = "err"
			if auth, err := e.check(via, pid, (&variant{x: uint64(int64(vn)), builder: v.builder}).accessRequest(arr(step["o"]), arr(step["u"]))); err == nil {
				out["plain"] = map[bool]string{true: "t", false: "f"}[auth]
			}
		}
		return goalTreeResponse(out, step["fmt"].(string), a.GetGoalTree())
	case "Expand":
		q := &api.ExpandRequest{PolicyId: pid, Root: v.node(arr(step["root"])), Format: explainFormat(step["fmt"])}
		a, err := callGraph(e, via, q, func() (*api.ExpandRequest, *api.ExpandResponse) {
			return &api.ExpandRequest{}, &api.ExpandResponse{}
		}, e.graph.Expand, func(c api.RelationGraphClient, ctx context.Context, q *api.ExpandRequest) (*api.ExpandResponse, error) {
			return c.Expand(ctx, q)
		})
		if err != nil {
			return failed
		}
		return goalTreeResponse(obj{"r": "ok", "fmt": formatName(a.GetFormat())}, step["fmt"].(string), a.GetGoalTree())
	case "Dump":
		q := &api.DumpRelationshipsRequest{PolicyId: pid}
		if step["fmt"] != "dot" {
			q.Format = 7
		}
		a, err := callGraph(e, via, q, func() (*api.DumpRelationshipsRequest, *api.DumpRelationshipResponse) {
			return &api.DumpRelationshipsRequest{}, &api.DumpRelationshipResponse{}
		}, e.graph.DumpRelationships, func(c api.RelationGraphClient, ctx context.Context, q *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
			return c.DumpRelationships(ctx, q)
		})
		if err != nil {
			return failed
		}
		d, err := dumpJSON(a.GetDot())
		if err != nil {
			return obj{"r": "malformed", "msg": enc(err.Error())}
		}
		return obj{"r": "ok", "dump": d}
	}
	if step["op"] == "PrintExpr" {
		return obj{"r": "ok", "text": enc(v.tree(step["tree"].(obj)).RelationExpression())}
	}
	panic(badRequest{fmt.Sprintf("op %v", step["op"])})
}

func (e *env) check(via, pid string, access *domain.AccessRequest) (bool, error) {
	q := &api.CheckRequest{PolicyId: pid, AccessRequest: access}
	a, err := callGraph(e, via, q, func() (*api.CheckRequest, *api.CheckResponse) {
		return &api.CheckRequest{}, &api.CheckResponse{}
	}, e.graph.Check, func(c api.RelationGraphClient, ctx context.Context, q *api.CheckRequest) (*api.CheckResponse, error) {
		return c.Check(ctx, q)
	})
	if err != nil {
		return false, err
	}
	return a.GetResult().GetAuthorized(), nil
}

func goalTreeResponse(resp obj, format, text string) obj {
	resp["size"] = len(text)
	var tree obj
	var err error
	switch format {
	case "json":
		tree, err = goalTreeFromJSON(json.RawMessage(text))
	case "dot":
		tree, err = goalTreeFromDOT(text)
	default:
		return resp
	}
	if err != nil {
		return obj{"r": "malformed", "msg": enc(err.Error())}
	}
	resp["tree"] = tree
	return resp
}

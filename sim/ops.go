package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ---- plain data --------------------------------------------------------------

// Expr is a relation expression tree.
type Expr struct {
	K  string `json:"k"` // this cu ttu op
	A  string `json:"a,omitempty"`
	B  string `json:"b,omitempty"`
	Op string `json:"op,omitempty"` // + & -
	L  *Expr  `json:"l,omitempty"`
	R  *Expr  `json:"r,omitempty"`
}

// Restr is an element of a subject restriction.
type Restr struct {
	Res string `json:"res"`
	Rel string `json:"rel,omitempty"`
	Set bool   `json:"set,omitempty"` // entity set (with relation)
}

type PRel struct {
	Name  string  `json:"name"`
	Doc   string  `json:"doc,omitempty"`
	Form  string  `json:"form"` // tree text
	Expr  *Expr   `json:"expr"`
	Text  string  `json:"text,omitempty"` // the text form
	Univ  bool    `json:"univ,omitempty"`
	NoRes bool    `json:"nores,omitempty"` // no subject restriction at all
	Restr []Restr `json:"restr,omitempty"`
}

type PRes struct {
	Name string `json:"name"`
	Doc  string `json:"doc,omitempty"`
	Rels []PRel `json:"rels,omitempty"`
}

// PolSpec describes a policy.
type PolSpec struct {
	ID    string            `json:"id"`
	Name  string            `json:"name,omitempty"`
	Doc   string            `json:"doc,omitempty"`
	Attrs map[string]string `json:"attrs,omitempty"`
	Res   []PRes            `json:"res"`
	Form  string            `json:"form"` // msg yaml
	Bad   string            `json:"bad,omitempty"`
	Style int               `json:"style,omitempty"` // how a document is written

	msg   *domain.Policy // expected content
	valid string         // "" if valid, else the reason
	done  bool
}

type Ent struct {
	R string `json:"r"`
	I string `json:"i"`
}

// Subj is the subject of a relationship: an entity ("e"), an entity set ("s")
// or all entities of a resource ("w").
type Subj struct {
	K   string `json:"k"`
	R   string `json:"r"`
	I   string `json:"i,omitempty"`
	Rel string `json:"rel,omitempty"`
}

type Tuple struct {
	O   Ent    `json:"o"`
	Rel string `json:"rel"`
	S   Subj   `json:"s"`
}

func (t Tuple) String() string { return fmt.Sprintf("%s:%s#%s@%s", t.O.R, t.O.I, t.Rel, t.S) }

// key is unlike for unlike relationships, whatever the names contain.
func (t Tuple) key() string {
	return fmt.Sprintf("%q", []string{t.O.R, t.O.I, t.Rel, t.S.K, t.S.R, t.S.I, t.S.Rel})
}
func (s Subj) String() string {
	switch s.K {
	case "s":
		return fmt.Sprintf("%s:%s#%s", s.R, s.I, s.Rel)
	case "w":
		return fmt.Sprintf("%s:<all>", s.R)
	}
	return fmt.Sprintf("%s:%s", s.R, s.I)
}

// Sel is a relationship selector.
type Sel struct {
	OK  string `json:"ok"` // spec res any
	O   Ent    `json:"o"`
	RK  string `json:"rk"` // name any
	Rel string `json:"rel,omitempty"`
	SK  string `json:"sk"` // spec res any
	S   Subj   `json:"s"`
}

func (s *Sel) matches(t Tuple) bool {
	switch s.OK {
	case "spec":
		if t.O != s.O {
			return false
		}
	case "res":
		if t.O.R != s.O.R {
			return false
		}
	}
	if s.RK == "name" && t.Rel != s.Rel {
		return false
	}
	switch s.SK {
	case "spec":
		if t.S != s.S {
			return false
		}
	case "res":
		if t.S.R != s.S.R {
			return false
		}
	}
	return true
}

func (s *Sel) String() string {
	o, r, b := "*", "*", "*"
	switch s.OK {
	case "spec":
		o = s.O.R + ":" + s.O.I
	case "res":
		o = s.O.R + ":<all>"
	}
	if s.RK == "name" {
		r = s.Rel
	}
	switch s.SK {
	case "spec":
		b = s.S.String()
	case "res":
		b = "resource " + s.S.R
	}
	return fmt.Sprintf("[%s # %s @ %s]", o, r, b)
}

// Op is one request of a client.
//
//	create update delpol getpol list set del get find delrels
//	check explain expand dump restart gate
type Op struct {
	ID     int      `json:"id"`
	Client int      `json:"client"`
	Phase  int      `json:"phase"`
	Kind   string   `json:"kind"`
	Pol    string   `json:"pol,omitempty"`
	Spec   *PolSpec `json:"spec,omitempty"`
	T      *Tuple   `json:"t,omitempty"`
	Sel    *Sel     `json:"sel,omitempty"`
	Data   string   `json:"data,omitempty"`
	O      *Ent     `json:"o,omitempty"`
	Rel    string   `json:"rel,omitempty"`
	S      *Ent     `json:"s,omitempty"`
	Root   *Subj    `json:"root,omitempty"`
	Format int      `json:"format,omitempty"`
	Bad    string   `json:"bad,omitempty"` // malformation of the request
	// environment
	Faults     []Fault `json:"faults,omitempty"`
	FaultTries int     `json:"fault_tries,omitempty"` // attempts that meet the faults
	Retry      int     `json:"retry,omitempty"`
	Lost       bool    `json:"lost,omitempty"` // the response is lost, the client sends again
	Jump       int64   `json:"jump,omitempty"` // clock jump just before the request
	At         int64   `json:"at,omitempty"`   // absolute clock at the start of the request
	Wire       bool    `json:"wire,omitempty"` // request goes through its wire format
	Print      bool    `json:"print,omitempty"`
	Scribble   bool    `json:"scribble,omitempty"` // the caller reuses its messages afterwards
	Cancel     bool    `json:"cancel,omitempty"`   // the context is already cancelled
	Extra      bool    `json:"extra,omitempty"`    // inserted by mode "insert"
	same       bool    // the policy is one sent before
	Tag        string  `json:"tag,omitempty"` // "probe", or the audit the query belongs to

	audit bool
}

var writeKinds = map[string]bool{"create": true, "update": true, "delpol": true, "set": true, "del": true, "delrels": true}

func (o *Op) isWrite() bool { return writeKinds[o.Kind] }

func (o *Op) polID() string {
	if o.Spec != nil {
		return o.Spec.ID
	}
	return o.Pol
}

func (o *Op) String() string {
	s := fmt.Sprintf("#%d %s", o.ID, o.Kind)
	if o.Kind != "list" && o.Kind != "restart" && o.Kind != "gate" {
		s += fmt.Sprintf(" %q", o.polID())
	}
	switch o.Kind {
	case "create", "update":
		s += fmt.Sprintf(" form=%s data=%s", o.Spec.Form, brief(o.Data))
		if o.Spec.Bad != "" {
			s += " bad=" + o.Spec.Bad
		}
	case "set":
		s += fmt.Sprintf(" %s data=%s", o.T, brief(o.Data))
	case "del", "get":
		s += fmt.Sprintf(" %s", o.T)
	case "find", "delrels":
		s += " " + o.Sel.String()
	case "check", "explain":
		s += fmt.Sprintf(" %s:%s#%s@%s:%s", o.O.R, o.O.I, o.Rel, o.S.R, o.S.I)
	case "expand":
		s += " " + o.Root.String()
	}
	if o.Bad != "" {
		s += " malformed=" + o.Bad
	}
	if o.Cancel {
		s += " cancelled"
	}
	return s
}

// ---- responses ---------------------------------------------------------------

type PolRec struct {
	Msg  *domain.Policy
	Data string
	At   int64
	NoAt bool
}

type RelRec struct {
	Pol  string
	T    Tuple
	Data string
	At   int64
	NoAt bool
	Bad  string
}

type Resp struct {
	Err   string
	Flag  bool
	N     uint64
	Ids   []string
	Pol   *PolRec
	Rec   *RelRec
	Recs  []RelRec
	Doc   string
	Fmt   int
	NilOK bool // a nil response without error
	wire  []byte
	cnt   bool
}

func (r *Resp) String() string {
	if r.Err != "" {
		return "error: " + clip(r.Err, 160)
	}
	s := fmt.Sprintf("ok flag=%v n=%d", r.Flag, r.N)
	if r.Ids != nil {
		s += fmt.Sprintf(" ids=%q", r.Ids)
	}
	if r.Pol != nil {
		s += fmt.Sprintf(" policy=%q data=%s", r.Pol.Msg.GetId(), brief(r.Pol.Data))
	}
	if r.Rec != nil {
		s += fmt.Sprintf(" rec=%s data=%s", r.Rec.T, brief(r.Rec.Data))
	}
	for _, rec := range r.Recs {
		s += fmt.Sprintf(" {%s data=%s}", rec.T, brief(rec.Data))
	}
	if r.Doc != "" {
		if strings.Contains(r.Doc, "0x") { // addresses
			s += " doc"
		} else {
			s += fmt.Sprintf(" doc(%d bytes)", len(r.Doc))
		}
	}
	return s
}

// brief quotes s, and tells a long one by its length and a hash.
func brief(s string) string {
	if len(s) <= 200 {
		return fmt.Sprintf("%q", s)
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%q...(%d bytes, fnv %016x)", s[:40], len(s), h.Sum64())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *runner) execute(op *Op, ev *Event) (resp *Resp, mutated string) {
	ctx := r.ctx
	if op.Cancel {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
		r.stats.Cancelled++
	}
	for _, f := range op.Faults {
		if f.Kind == "cancel" && ev.cancel == nil {
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			ctx, ev.cancel = c, cancel
		}
	}
	req := buildRequest(op)
	if op.Bad == "utf8" {
		notUTF8(req.ProtoReflect())
	}
	if op.Wire {
		b, err := proto.Marshal(req)
		if err == nil {
			n := req.ProtoReflect().New().Interface()
			if proto.Unmarshal(b, n) == nil {
				req = n
			}
		}
	}
	if op.Print {
		_ = fmt.Sprint(req)
	}
	before := proto.Clone(req)
	msg, err := r.call(ctx, op, req)
	if !proto.Equal(before, req) {
		mutated = fmt.Sprintf("request changed by the service: sent %v, is now %v", before, req)
	}
	resp = convert(op, msg, err)
	if op.Scribble {
		light := hashStr(op.Data)%2 == 0
		scribble(req.ProtoReflect(), light)
		if msg != nil && msg.ProtoReflect().IsValid() {
			scribble(msg.ProtoReflect(), light)
		}
	}
	return resp, mutated
}

func (r *runner) call(ctx context.Context, op *Op, req proto.Message) (proto.Message, error) {
	switch q := req.(type) {
	case *api.CreatePolicyRequest:
		return wrapNil(r.pol.CreatePolicy(ctx, q))
	case *api.UpdatePolicyRequest:
		return wrapNil(r.pol.UpdatePolicy(ctx, q))
	case *api.DeletePolicyRequest:
		return wrapNil(r.pol.DeletePolicy(ctx, q))
	case *api.GetPolicyRequest:
		return wrapNil(r.pol.GetPolicy(ctx, q))
	case *api.ListPolicyIdsRequest:
		return wrapNil(r.pol.ListPolicyIds(ctx, q))
	case *api.SetRelationshipRequest:
		return wrapNil(r.pol.SetRelationship(ctx, q))
	case *api.DeleteRelationshipRequest:
		return wrapNil(r.pol.DeleteRelationship(ctx, q))
	case *api.GetRelationshipRequest:
		return wrapNil(r.pol.GetRelationship(ctx, q))
	case *api.FindRelationshipRecordsRequest:
		return wrapNil(r.pol.FindRelationshipRecords(ctx, q))
	case *api.DeleteRelationshipsRequest:
		return wrapNil(r.pol.DeleteRelationships(ctx, q))
	case *api.CheckRequest:
		return wrapNil(r.rg.Check(ctx, q))
	case *api.ExplainCheckRequest:
		return wrapNil(r.rg.ExplainCheck(ctx, q))
	case *api.ExpandRequest:
		return wrapNil(r.rg.Expand(ctx, q))
	case *api.DumpRelationshipsRequest:
		return wrapNil(r.rg.DumpRelationships(ctx, q))
	}
	panic("unknown request")
}

func wrapNil[T proto.Message](m T, err error) (proto.Message, error) {
	if reflect.ValueOf(m).IsNil() {
		return nil, err
	}
	return m, err
}

func convert(op *Op, msg proto.Message, err error) *Resp {
	r := &Resp{}
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "error"
		}
		return r
	}
	if msg == nil {
		r.NilOK = true
		return r
	}
	r.wire, _ = proto.MarshalOptions{Deterministic: true}.Marshal(msg)
	switch m := msg.(type) {
	case *api.CreatePolicyResponse:
		r.Pol = polRec(m.Record)
	case *api.DeletePolicyResponse:
		r.Flag, r.N = m.Found, m.RelationshipsRemoved
	case *api.GetPolicyResponse:
		r.Pol = polRec(m.Record)
	case *api.ListPolicyIdsResponse:
		r.Ids = []string{}
		for _, x := range m.Records {
			r.Ids = append(r.Ids, x.GetId())
		}
	case *api.SetRelationshipResponse:
		r.Flag = m.RecordOverwritten
	case *api.DeleteRelationshipResponse:
		r.Flag = m.Found
	case *api.GetRelationshipResponse:
		if m.Record != nil {
			x := relRec(m.Record)
			r.Rec = &x
		}
	case *api.FindRelationshipRecordsResponse:
		r.Recs = []RelRec{}
		for _, x := range m.GetResult().GetRecords() {
			r.Recs = append(r.Recs, relRec(x))
		}
		sort.SliceStable(r.Recs, func(i, j int) bool {
			return r.Recs[i].T.key() < r.Recs[j].T.key()
		})
	case *api.DeleteRelationshipsResponse:
		r.N = m.RecordsAffected
	case *api.CheckResponse:
		r.Flag = m.GetResult().GetAuthorized()
		r.NilOK = m.GetResult() == nil
	case *api.ExplainCheckResponse:
		r.Flag, r.Doc, r.Fmt = m.Authorized, m.GoalTree, int(m.Format)
	case *api.ExpandResponse:
		r.Doc, r.Fmt = m.GoalTree, int(m.Format)
	case *api.DumpRelationshipResponse:
		r.Doc = m.GetDot()
	}
	return r
}

func polRec(m *domain.PolicyRecord) *PolRec {
	if m == nil {
		return nil
	}
	r := &PolRec{Data: stringOf(m.AppData), NoAt: m.CreatedAt == nil}
	if m.Policy != nil {
		r.Msg = proto.Clone(m.Policy).(*domain.Policy)
	}
	if m.CreatedAt != nil {
		r.At = m.CreatedAt.AsTime().UnixNano()
	}
	return r
}

func relRec(m *domain.RelationshipRecord) RelRec {
	if m == nil {
		return RelRec{Bad: "nil record"}
	}
	r := RelRec{Pol: m.PolicyId, Data: stringOf(m.AppData), NoAt: m.CreatedAt == nil}
	if m.CreatedAt != nil {
		r.At = m.CreatedAt.AsTime().UnixNano()
	}
	if m.Relationship == nil || m.Relationship.Object == nil {
		r.Bad = "incomplete relationship"
		return r
	}
	r.T.O = Ent{m.Relationship.Object.Resource, m.Relationship.Object.Id}
	r.T.Rel = m.Relationship.Relation
	switch s := m.Relationship.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		r.T.S = Subj{K: "e", R: s.Entity.GetResource(), I: s.Entity.GetId()}
	case *domain.Subject_EntitySet:
		r.T.S = Subj{K: "s", R: s.EntitySet.GetEntity().GetResource(), I: s.EntitySet.GetEntity().GetId(), Rel: s.EntitySet.GetRelation()}
	case *domain.Subject_ResourceSet:
		r.T.S = Subj{K: "w", R: s.ResourceSet.GetResourceName()}
	default:
		r.Bad = "no subject"
	}
	return r
}

// notUTF8 makes every name and id in a message text that is not UTF-8.
func notUTF8(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList() || fd.IsMap() || fd.Name() == "policy_id":
		case fd.Kind() == protoreflect.MessageKind:
			notUTF8(v.Message())
		case fd.Kind() == protoreflect.StringKind && fd.Name() == "id":
			m.Set(fd, protoreflect.ValueOfString(v.String()+"\xff"))
		}
		return true
	})
}

// scribble overwrites the fields of a message in place, as a caller may do with its own
// messages once the call has returned: all of them, or only those without which the
// message still makes sense.
func scribble(m protoreflect.Message, light bool) {
	if fd := m.Descriptor().Fields().ByName("description"); fd != nil && m.IsValid() {
		m.Set(fd, protoreflect.ValueOfString("scribbled"))
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Kind() == protoreflect.MessageKind {
					scribble(l.Get(i).Message(), light)
				}
			}
		case fd.IsMap():
			if fd.MapKey().Kind() == protoreflect.StringKind && fd.MapValue().Kind() == protoreflect.StringKind {
				v.Map().Set(protoreflect.ValueOfString("scribbled").MapKey(), protoreflect.ValueOfString("scribbled"))
			}
		case fd.Kind() == protoreflect.MessageKind:
			scribble(v.Message(), light)
		case fd.Kind() == protoreflect.StringKind:
			if light && fd.Name() != "description" {
				break
			}
			m.Set(fd, protoreflect.ValueOfString("scribbled"))
		case fd.Kind() == protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i] = '#'
			}
		}
		return true
	})
}

// ---- requests ----------------------------------------------------------------

func entMsg(e Ent) *domain.Entity { return &domain.Entity{Resource: e.R, Id: e.I} }

func subjMsg(s Subj) *domain.Subject {
	switch s.K {
	case "e":
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: s.R, Id: s.I}}}
	case "s":
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: &domain.Entity{Resource: s.R, Id: s.I}, Relation: s.Rel}}}
	case "w":
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: s.R}}}
	}
	return &domain.Subject{}
}

// builtTuple makes a relationship with the library's builder.
func builtTuple(t Tuple) *domain.Relationship {
	b := domain.RelationshipBuilder{}
	switch t.S.K {
	case "e":
		r := b.Relationship(t.O.R, t.O.I, t.Rel, t.S.R, t.S.I)
		return &r
	case "s":
		r := b.EntitySet(t.O.R, t.O.I, t.Rel, t.S.R, t.S.I, t.S.Rel)
		return &r
	case "w":
		r := b.Wildcard(t.O.R, t.O.I, t.Rel, t.S.R)
		return &r
	}
	return tupleMsg(t)
}

// builtSel makes a selector with the library's builder.
func builtSel(s *Sel) *domain.RelationshipSelector {
	b := domain.SelectorBuilder{}
	switch s.OK {
	case "spec":
		b.WithObject(domain.NewEntity(s.O.R, s.O.I))
	case "res":
		return nil
	default:
		b.AnyObject()
	}
	switch s.RK {
	case "name":
		b.WithRelation(s.Rel)
	default:
		b.AnyRelation()
	}
	switch s.SK {
	case "spec":
		b.WithSubject(subjMsg(s.S))
	case "res":
		return nil
	default:
		b.AnySubject()
	}
	m := b.Build()
	return &m
}

func tupleMsg(t Tuple) *domain.Relationship {
	return &domain.Relationship{Object: entMsg(t.O), Relation: t.Rel, Subject: subjMsg(t.S)}
}

var tupleBads = []string{"nil", "nilobj", "nilsubj", "novariant", "emptyobjid", "emptyobjres", "emptyrel", "emptysubjid", "emptysubjres",
	"nilentity", "nilentityset", "nilentitysetentity", "emptysetrel", "nilresourceset", "emptyresourceset"}

func badTuple(t Tuple, bad string) *domain.Relationship {
	m := tupleMsg(t)
	switch bad {
	case "":
	case "nil":
		return nil
	case "nilobj":
		m.Object = nil
	case "nilsubj":
		m.Subject = nil
	case "novariant":
		m.Subject = &domain.Subject{}
	case "emptyobjid":
		m.Object.Id = ""
	case "emptyobjres":
		m.Object.Resource = ""
	case "emptyrel":
		m.Relation = ""
	case "emptysubjid":
		m.Subject = subjMsg(Subj{K: "e", R: t.S.R})
	case "emptysubjres":
		m.Subject = subjMsg(Subj{K: "e", I: "x"})
	case "nilentity":
		m.Subject = &domain.Subject{Subject: &domain.Subject_Entity{}}
	case "nilentityset":
		m.Subject = &domain.Subject{Subject: &domain.Subject_EntitySet{}}
	case "nilentitysetentity":
		m.Subject = &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Relation: t.Rel}}}
	case "emptysetrel":
		m.Subject = subjMsg(Subj{K: "s", R: t.O.R, I: t.O.I})
	case "nilresourceset":
		m.Subject = &domain.Subject{Subject: &domain.Subject_ResourceSet{}}
	case "emptyresourceset":
		m.Subject = subjMsg(Subj{K: "w"})
	}
	return m
}

var selBads = []string{"nil", "nilobj", "nilrel", "nilsubj", "objnovariant", "relnovariant", "subjnovariant", "nilobjspec", "nilsubjspec", "subjspecnovariant"}

func selMsg(s *Sel, bad string) *domain.RelationshipSelector {
	m := &domain.RelationshipSelector{}
	switch s.OK {
	case "spec":
		m.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: entMsg(s.O)}}
	case "res":
		m.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: s.O.R}}
	default:
		m.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	}
	switch s.RK {
	case "name":
		m.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: s.Rel}}
	default:
		m.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	}
	switch s.SK {
	case "spec":
		m.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: subjMsg(s.S)}}
	case "res":
		m.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_ResourceSpec{ResourceSpec: s.S.R}}
	default:
		m.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	}
	switch bad {
	case "nil":
		return nil
	case "nilobj":
		m.ObjectSelector = nil
	case "nilrel":
		m.RelationSelector = nil
	case "nilsubj":
		m.SubjectSelector = nil
	case "objnovariant":
		m.ObjectSelector = &domain.ObjectSelector{}
	case "relnovariant":
		m.RelationSelector = &domain.RelationSelector{}
	case "subjnovariant":
		m.SubjectSelector = &domain.SubjectSelector{}
	case "nilobjspec":
		m.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{}}
	case "nilsubjspec":
		m.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{}}
	case "subjspecnovariant":
		m.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: &domain.Subject{}}}
	}
	return m
}

var accessBads = []string{"nil", "nilobj", "nilsubj", "emptyobjid", "emptyobjres", "emptyrel", "emptysubjid", "emptysubjres"}

func accessMsg(op *Op, entity func(Ent) *domain.Entity) *domain.AccessRequest {
	m := &domain.AccessRequest{Object: entity(*op.O), Relation: op.Rel, Subject: entity(*op.S)}
	switch op.Bad {
	case "nil":
		return nil
	case "nilobj":
		m.Object = nil
	case "nilsubj":
		m.Subject = nil
	case "emptyobjid":
		m.Object.Id = ""
	case "emptyobjres":
		m.Object.Resource = ""
	case "emptyrel":
		m.Relation = ""
	case "emptysubjid":
		m.Subject.Id = ""
	case "emptysubjres":
		m.Subject.Resource = ""
	}
	return m
}

var rootBads = []string{"nil", "novariant", "nilset", "nilsetobj", "nilentity", "nilentityobj", "nilwild", "emptyrel"}

func rootMsg(op *Op) *domain.RelationNode {
	s := op.Root
	switch op.Bad {
	case "nil":
		return nil
	case "novariant":
		return &domain.RelationNode{}
	case "nilset":
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{}}
	case "nilsetobj":
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Relation: s.Rel}}}
	case "nilentity":
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{}}
	case "nilentityobj":
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{}}}
	case "nilwild":
		return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{}}
	case "emptyrel":
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: &domain.Entity{Resource: s.R, Id: s.I}}}}
	}
	switch s.K {
	case "s":
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: &domain.Entity{Resource: s.R, Id: s.I}, Relation: s.Rel}}}
	case "w":
		return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: s.R}}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: &domain.Entity{Resource: s.R, Id: s.I}}}}
}

func buildRequest(op *Op) proto.Message {
	badTuple, selMsg, entity := badTuple, selMsg, entMsg
	if op.Bad == "" && op.ID%2 == 1 { // every other request is made with the library's builders
		badTuple = func(t Tuple, _ string) *domain.Relationship { return builtTuple(t) }
		plain := selMsg
		selMsg = func(s *Sel, _ string) *domain.RelationshipSelector {
			if m := builtSel(s); m != nil {
				return m
			}
			return plain(s, "")
		}
		entity = func(e Ent) *domain.Entity { return domain.NewEntity(e.R, e.I) }
	}
	accessMsg := func(op *Op) *domain.AccessRequest { return accessMsg(op, entity) }
	switch op.Kind {
	case "create":
		return &api.CreatePolicyRequest{PolicyDefinition: op.Spec.definition(), AppData: bytesOf(op.Data)}
	case "update":
		return &api.UpdatePolicyRequest{PolicyDefinition: op.Spec.definition(), AppData: bytesOf(op.Data)}
	case "delpol":
		return &api.DeletePolicyRequest{Id: op.Pol}
	case "getpol":
		return &api.GetPolicyRequest{Id: op.Pol}
	case "list":
		return &api.ListPolicyIdsRequest{}
	case "set":
		return &api.SetRelationshipRequest{PolicyId: op.Pol, Relationship: badTuple(*op.T, op.Bad), AppData: bytesOf(op.Data)}
	case "del":
		return &api.DeleteRelationshipRequest{PolicyId: op.Pol, Relationship: badTuple(*op.T, op.Bad)}
	case "get":
		return &api.GetRelationshipRequest{PolicyId: op.Pol, Relationship: badTuple(*op.T, op.Bad)}
	case "find":
		return &api.FindRelationshipRecordsRequest{PolicyId: op.Pol, Selector: selMsg(op.Sel, op.Bad)}
	case "delrels":
		return &api.DeleteRelationshipsRequest{PolicyId: op.Pol, Selector: selMsg(op.Sel, op.Bad)}
	case "check":
		return &api.CheckRequest{PolicyId: op.Pol, AccessRequest: accessMsg(op)}
	case "explain":
		return &api.ExplainCheckRequest{PolicyId: op.Pol, AccessRequest: accessMsg(op), Format: api.ExplainFormat(op.Format)}
	case "expand":
		return &api.ExpandRequest{PolicyId: op.Pol, Root: rootMsg(op), Format: api.ExplainFormat(op.Format)}
	case "dump":
		return &api.DumpRelationshipsRequest{PolicyId: op.Pol, Format: api.DumpRelationshipsRequest_DumpFormat(op.Format)}
	}
	panic("unknown op kind " + op.Kind)
}

func bytesOf(s string) []byte {
	if s == "" {
		return nil
	}
	// one byte per rune, so that any bytes can be written in a replay file
	b := make([]byte, 0, len(s))
	for _, c := range s {
		b = append(b, byte(c))
	}
	return b
}

func stringOf(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

// ---- policies ----------------------------------------------------------------

func (e *Expr) msg() *domain.RelationExpressionTree {
	if e == nil {
		return nil
	}
	switch e.K {
	case "this":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}}}}
	case "cu":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: e.A}}}}}
	case "ttu":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{TuplesetRelation: e.A, ComputedUsersetRelation: e.B}}}}}
	case "nilnode":
		return &domain.RelationExpressionTree{}
	case "nilrule":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{}}
	case "norule":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}
	case "nilcu":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Cu{}}}}
	case "nilttu":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Ttu{}}}}
	case "nilop":
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{}}
	}
	op := domain.Operator(77)
	switch e.Op {
	case "+":
		op = domain.Operator_UNION
	case "&":
		op = domain.Operator_INTERSECTION
	case "-":
		op = domain.Operator_DIFFERENCE
	}
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: e.L.msg(), Operator: op, Right: e.R.msg()}}}
}

// built makes the tree with the library's helpers.
func (e *Expr) built() *domain.RelationExpressionTree {
	if e == nil {
		return nil
	}
	switch e.K {
	case "this":
		return domain.ThisNode()
	case "cu":
		return domain.CUNode(e.A)
	case "ttu":
		return domain.TTUNode(e.A, e.B)
	case "op":
		switch e.Op {
		case "+":
			return domain.UnionNode(e.L.built(), e.R.built())
		case "&":
			return domain.IntersectionNode(e.L.built(), e.R.built())
		case "-":
			return domain.DifferenceNode(e.L.built(), e.R.built())
		}
	}
	return e.msg()
}

// text prints the expression with as few parentheses as left to right grouping allows.
// sp yields the blanks between tokens, par whether redundant parentheses are added.
func (e *Expr) text(sp func() string, par func() bool) string {
	var s string
	switch e.K {
	case "this":
		s = "_this"
	case "cu":
		s = e.A
	case "ttu":
		s = e.A + sp() + "->" + sp() + e.B
	default:
		l := e.L.text(sp, par)
		r := e.R.text(sp, par)
		if e.R.K == "op" && !(strings.HasPrefix(r, "(") && balanced(r)) {
			r = "(" + sp() + r + sp() + ")"
		}
		s = l + sp() + e.Op + sp() + r
	}
	if par() {
		s = "(" + sp() + s + sp() + ")"
	}
	return s
}

// balanced says whether the first parenthesis of s closes at its end.
func balanced(s string) bool {
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
			if d == 0 {
				return i == len(s)-1
			}
		}
	}
	return false
}

func (p *PolSpec) message() *domain.Policy {
	m := &domain.Policy{Id: p.ID, Name: p.Name, Description: p.Doc}
	if len(p.Attrs) > 0 {
		m.Attributes = map[string]string{}
		for k, v := range p.Attrs {
			m.Attributes[k] = v
		}
	}
	for _, res := range p.Res {
		rm := &domain.Resource{Name: res.Name, Description: res.Doc}
		for _, rel := range res.Rels {
			x := &domain.Relation{Name: rel.Name, Description: rel.Doc}
			if rel.Form == "text" {
				x.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: rel.Text}}
			} else {
				x.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: rel.Expr.msg()}}
			}
			switch {
			case rel.NoRes:
			case rel.Univ:
				x.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
			default:
				set := &domain.SubjectRestrictionSet{}
				for _, r := range rel.Restr {
					e := &domain.SubjectRestrictionSet_Restriction{}
					if r.Set {
						e.Entry = &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: r.Res, RelationName: r.Rel}}
					} else {
						e.Entry = &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: r.Res}}
					}
					set.Restrictions = append(set.Restrictions, e)
				}
				x.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
			}
			rm.Relations = append(rm.Relations, x)
		}
		m.Resources = append(m.Resources, rm)
	}
	return m
}

func yq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"':
			b.WriteString("\\\"")
		case c == '\\':
			b.WriteString("\\\\")
		case c == '\n':
			b.WriteString("\\n")
		case c < 0x20 || c == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ys writes a string plainly where a document allows it, and else between single quotes.
func ys(s string) string {
	plain := s != ""
	for i, c := range s {
		if c < 0x20 || c == 0x7f || c > 0x7f {
			return yq(s)
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c == '_' || c >= '0' && c <= '9')) {
			plain = false
		}
	}
	switch strings.ToLower(s) {
	case "true", "false", "null", "yes", "no", "on", "off", "y", "n", "nan", "inf":
		plain = false
	}
	if plain {
		return s
	}
	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

// yaml renders the policy as a policy definition document.
func (p *PolSpec) yaml() string {
	var b strings.Builder
	yq := yq
	if p.Style&1 != 0 {
		yq = ys
	}
	if p.Style&2 != 0 {
		b.WriteString("# policy\n---\n")
	}
	fmt.Fprintf(&b, "id: %s\n", yq(p.ID))
	if p.Name != "" {
		fmt.Fprintf(&b, "name: %s\n", yq(p.Name))
	}
	if p.Doc != "" {
		fmt.Fprintf(&b, "doc: %s\n", yq(p.Doc))
	}
	if len(p.Attrs) > 0 {
		b.WriteString("attributes:\n")
		var ks []string
		for k := range p.Attrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "  %s: %s\n", yq(k), yq(p.Attrs[k]))
		}
	}
	if len(p.Res) > 0 {
		b.WriteString("resources:\n")
	}
	for _, res := range p.Res {
		if p.Style&16 != 0 && res.Doc == "" && len(res.Rels) == 0 {
			fmt.Fprintf(&b, "  %s: {}\n", yq(res.Name))
			continue
		}
		fmt.Fprintf(&b, "  %s:\n", yq(res.Name))
		if res.Doc != "" {
			fmt.Fprintf(&b, "    doc: %s\n", yq(res.Doc))
		}
		if len(res.Rels) > 0 || p.Style&32 != 0 {
			b.WriteString("    relations:\n")
		}
		for _, rel := range res.Rels {
			fmt.Fprintf(&b, "      %s:\n", yq(rel.Name))
			if rel.Doc != "" {
				fmt.Fprintf(&b, "        doc: %s\n", yq(rel.Doc))
			}
			fmt.Fprintf(&b, "        expr: %s\n", yq(rel.Text))
			if rel.Univ && p.Style&4 != 0 {
				b.WriteString("        types:\n")
				for i, r := range p.Res {
					if i == len(p.Res)/2 {
						b.WriteString("          - \"*\" # all\n")
					}
					fmt.Fprintf(&b, "          - %s\n", yq(r.Name))
				}
			} else if rel.Univ {
				b.WriteString("        types: [\"*\"]\n")
			} else if len(rel.Restr) > 0 {
				var l []string
				for _, r := range rel.Restr {
					s := r.Res
					if r.Set {
						s += ":" + r.Rel
					}
					l = append(l, yq(s))
				}
				if p.Style&8 != 0 {
					fmt.Fprintf(&b, "        types: [%s]\n", strings.Join(l, ", "))
				} else {
					fmt.Fprintf(&b, "        types:\n          - %s\n", strings.Join(l, "\n          - "))
				}
			}
		}
	}
	return b.String()
}

var polBads = []string{"nildef", "nodef", "nilpolicy", "nilresource", "nilrelation", "nilexpr", "noexprvariant", "niltree", "norestrvariant",
	"nilrestrelem", "norestrelemvariant", "nilrestrentity", "nilrestrset", "yamlgarbage", "yamlempty", "yamlfield", "yamltype", "yamlnull",
	"yamlnullrel", "yamlemptyrel", "yamlnullexpr"}

// definition builds the policy definition sent to the service.
func (p *PolSpec) definition() *api.PolicyDefinition {
	if p.Form == "yaml" {
		y := p.yaml()
		switch p.Bad {
		case "yamlgarbage":
			y = "{{{" + y
		case "yamlempty":
			y = ""
		case "yamlfield":
			y += "nosuchfield: 1\n"
		case "yamltype":
			y = "id: [1, 2]\n"
		case "yamlnull":
			y = "null\n"
		case "yamlnullrel", "yamlemptyrel", "yamlnullexpr": // a relation without expression
			if len(p.Res) == 0 {
				y += "resources:\n"
			}
			y += "  z-empty:\n    relations:\n      rel:"
			y += map[string]string{"yamlnullrel": "\n", "yamlemptyrel": " {}\n", "yamlnullexpr": "\n        expr:\n        doc: none\n"}[p.Bad]
		}
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: y}}
	}
	m := p.message()
	if p.Style&1 != 0 {
		for i, res := range p.Res {
			for j, rel := range res.Rels {
				if rel.Form != "text" {
					m.Resources[i].Relations[j].RelationExpression.Expression = &domain.RelationExpression_Tree{Tree: rel.Expr.built()}
				}
			}
		}
	}
	switch p.Bad {
	case "nildef":
		return nil
	case "nodef":
		return &api.PolicyDefinition{}
	case "nilpolicy":
		m = nil
	case "nilresource":
		m.Resources = append(m.Resources, nil)
	case "nilrelation":
		m.Resources[0].Relations = append(m.Resources[0].Relations, nil)
	}
	if rel := lastRelation(m); rel != nil {
		set := func(e *domain.SubjectRestrictionSet_Restriction) {
			rel.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{
				RestrictionSet: &domain.SubjectRestrictionSet{Restrictions: []*domain.SubjectRestrictionSet_Restriction{e}}}}
		}
		switch p.Bad {
		case "nilexpr":
			rel.RelationExpression = nil
		case "noexprvariant":
			rel.RelationExpression = &domain.RelationExpression{}
		case "niltree":
			rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{}}
		case "norestrvariant":
			rel.SubjectRestriction = &domain.SubjectRestriction{}
		case "nilrestrelem":
			set(nil)
		case "norestrelemvariant":
			set(&domain.SubjectRestrictionSet_Restriction{})
		case "nilrestrentity":
			set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{}})
		case "nilrestrset":
			set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{}})
		}
	}
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: m}}
}

func lastRelation(m *domain.Policy) *domain.Relation {
	for i := len(m.GetResources()) - 1; i >= 0; i-- {
		rs := m.Resources[i].GetRelations()
		if len(rs) > 0 && rs[len(rs)-1] != nil {
			return rs[len(rs)-1]
		}
	}
	return nil
}

// expected returns the policy message the service must hand back for the spec.
func (p *PolSpec) expected() *domain.Policy {
	p.prepare()
	return p.msg
}

func (p *PolSpec) prepare() {
	if p.done {
		return
	}
	p.done = true
	if p.Form == "yaml" {
		cp := *p
		cp.Form = "msg"
		cp.Res = append([]PRes{}, p.Res...)
		sort.Slice(cp.Res, func(i, j int) bool { return cp.Res[i].Name < cp.Res[j].Name })
		for i := range cp.Res {
			rels := append([]PRel{}, cp.Res[i].Rels...)
			sort.Slice(rels, func(a, b int) bool { return rels[a].Name < rels[b].Name })
			for j := range rels {
				rels[j].Form = "text"
				rels[j].NoRes = false
			}
			cp.Res[i].Rels = rels
		}
		p.msg = cp.message()
	} else {
		p.msg = p.message()
	}
	p.valid = p.validate()
}

// validate decides whether the policy is admissible: the reference for admission.
func (p *PolSpec) validate() string {
	if p.Bad != "" {
		return "malformed: " + p.Bad
	}
	if p.ID == "" {
		return "no id"
	}
	rels := map[[2]string]bool{}
	ress := map[string]bool{}
	for _, res := range p.Res {
		if res.Name == "" {
			return "resource without name"
		}
		if ress[res.Name] {
			return "duplicate resource"
		}
		ress[res.Name] = true
		for _, rel := range res.Rels {
			if rel.Name == "" {
				return "relation without name"
			}
			k := [2]string{res.Name, rel.Name}
			if rels[k] {
				return "duplicate relation"
			}
			rels[k] = true
		}
	}
	for _, res := range p.Res {
		for _, rel := range res.Rels {
			if !rel.Univ && !rel.NoRes {
				for _, r := range rel.Restr {
					if r.Set && !rels[[2]string{r.Res, r.Rel}] || !r.Set && !ress[r.Res] {
						return "restriction refers to something undefined"
					}
				}
			}
			if why := rel.Expr.valid(res.Name, rels); why != "" {
				return why
			}
		}
	}
	return ""
}

func (e *Expr) valid(res string, rels map[[2]string]bool) string {
	if e == nil {
		return "missing expression"
	}
	switch e.K {
	case "this":
		return ""
	case "cu", "ttu":
		if !rels[[2]string{res, e.A}] {
			return "expression refers to an undefined relation"
		}
		if e.K == "ttu" && e.B == "" {
			return "incomplete rule"
		}
		return ""
	case "op":
		if e.Op != "+" && e.Op != "&" && e.Op != "-" {
			return "unknown operator"
		}
		if why := e.L.valid(res, rels); why != "" {
			return why
		}
		return e.R.valid(res, rels)
	}
	return "malformed expression " + e.K
}

func (p *PolSpec) relation(res, rel string) *PRel {
	for i := range p.Res {
		if p.Res[i].Name == res {
			for j := range p.Res[i].Rels {
				if p.Res[i].Rels[j].Name == rel {
					return &p.Res[i].Rels[j]
				}
			}
		}
	}
	return nil
}

func (p *PolSpec) hasRes(res string) bool {
	for i := range p.Res {
		if p.Res[i].Name == res {
			return true
		}
	}
	return false
}

// admits decides whether the relationship conforms to the policy.
func (p *PolSpec) admits(t *Tuple, bad string) bool {
	if bad != "" {
		return false
	}
	if t.O.R == "" || t.O.I == "" || t.Rel == "" || t.S.R == "" {
		return false
	}
	rel := p.relation(t.O.R, t.Rel)
	if rel == nil {
		return false
	}
	switch t.S.K {
	case "e":
		if t.S.I == "" || !p.hasRes(t.S.R) {
			return false
		}
	case "w":
		if !p.hasRes(t.S.R) {
			return false
		}
	case "s":
		if t.S.I == "" || t.S.Rel == "" || p.relation(t.S.R, t.S.Rel) == nil {
			return false
		}
	default:
		return false
	}
	if rel.Univ {
		return true
	}
	if rel.NoRes {
		return false
	}
	for _, r := range rel.Restr {
		if t.S.K == "s" && r.Set && r.Res == t.S.R && r.Rel == t.S.Rel {
			return true
		}
		if t.S.K != "s" && !r.Set && r.Res == t.S.R {
			return true
		}
	}
	return false
}

// closeZanzi closes the LevelDB database inside a zanzi built with WithDefaultKVStore,
// which has no Close of its own. Best effort: used only to free resources.
func closeZanzi(z any) bool {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int) bool
	walk = func(v reflect.Value, depth int) bool {
		if depth > 8 {
			return false
		}
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return false
			}
			return walk(v.Elem(), depth+1)
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return false
			}
			seen[v.Pointer()] = true
			if strings.HasSuffix(v.Type().String(), "raccoon.tmdbWrapper") {
				x := reflect.NewAt(v.Type().Elem(), unsafe.Pointer(v.Pointer()))
				if kv, ok := x.Interface().(rcdb.KVStore); ok {
					closeTmdb(kv)
					return true
				}
			}
			return walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if walk(v.Field(i), depth+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(reflect.ValueOf(z), 0)
}

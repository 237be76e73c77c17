// Package smithy stands in for github.com/boynton/smithy, which is not available offline: the syntax tree that
// the Smithy import and export of SADL use, as their use of it says (an AST is what Smithy's JSON form has:
// shapes by absolute name, in order, with traits).
package smithy

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/boynton/data"
)

type AST struct {
	Smithy   string       `json:"smithy"`
	Metadata *data.Object `json:"metadata,omitempty"`
	Shapes   *Shapes      `json:"shapes,omitempty"`
}

type Shape struct {
	Type       string       `json:"type"`
	Traits     *data.Object `json:"traits,omitempty"`
	Member     *Member      `json:"member,omitempty"`
	Key        *Member      `json:"key,omitempty"`
	Value      *Member      `json:"value,omitempty"`
	Members    *Members     `json:"members,omitempty"`
	Operations []*ShapeRef  `json:"operations,omitempty"`
	Resources  []*ShapeRef  `json:"resources,omitempty"`
	Input      *ShapeRef    `json:"input,omitempty"`
	Output     *ShapeRef    `json:"output,omitempty"`
	Errors     []*ShapeRef  `json:"errors,omitempty"`
	Version    string       `json:"version,omitempty"`
}

type ShapeRef struct {
	Target string `json:"target"`
}

type Member struct {
	Target string       `json:"target"`
	Traits *data.Object `json:"traits,omitempty"`
}

type Shapes struct {
	keys     []string
	bindings map[string]*Shape
}

func NewShapes() *Shapes { return &Shapes{bindings: map[string]*Shape{}} }

func (s *Shapes) Put(key string, val *Shape) {
	if _, ok := s.bindings[key]; !ok {
		s.keys = append(s.keys, key)
	}
	s.bindings[key] = val
}

func (s *Shapes) Get(key string) *Shape {
	if s == nil {
		return nil
	}
	return s.bindings[key]
}

func (s *Shapes) Keys() []string {
	if s == nil {
		return nil
	}
	return s.keys
}

func (s *Shapes) Length() int { return len(s.Keys()) }

func (s Shapes) MarshalJSON() ([]byte, error) {
	o := data.NewObject()
	for _, k := range s.keys {
		o.Put(k, s.bindings[k])
	}
	return o.MarshalJSON()
}

func (s *Shapes) UnmarshalJSON(b []byte) error {
	keys, err := data.JsonKeysInOrder(b)
	if err != nil {
		return err
	}
	n := NewShapes()
	n.keys = keys
	if err := json.Unmarshal(b, &n.bindings); err != nil {
		return err
	}
	*s = *n
	return nil
}

type Members struct {
	keys     []string
	bindings map[string]*Member
}

func NewMembers() *Members { return &Members{bindings: map[string]*Member{}} }

func (s *Members) Put(key string, val *Member) {
	if _, ok := s.bindings[key]; !ok {
		s.keys = append(s.keys, key)
	}
	s.bindings[key] = val
}

func (s *Members) Get(key string) *Member {
	if s == nil {
		return nil
	}
	return s.bindings[key]
}

func (s *Members) Keys() []string {
	if s == nil {
		return nil
	}
	return s.keys
}

func (s *Members) Length() int { return len(s.Keys()) }

func (s Members) MarshalJSON() ([]byte, error) {
	o := data.NewObject()
	for _, k := range s.keys {
		o.Put(k, s.bindings[k])
	}
	return o.MarshalJSON()
}

func (s *Members) UnmarshalJSON(b []byte) error {
	keys, err := data.JsonKeysInOrder(b)
	if err != nil {
		return err
	}
	n := NewMembers()
	n.keys = keys
	if err := json.Unmarshal(b, &n.bindings); err != nil {
		return err
	}
	*s = *n
	return nil
}

func (ast *AST) GetShape(id string) *Shape {
	if ast.Shapes == nil {
		return nil
	}
	return ast.Shapes.Get(id)
}

func (ast *AST) PutShape(id string, shape *Shape) {
	if ast.Shapes == nil {
		ast.Shapes = NewShapes()
	}
	ast.Shapes.Put(id, shape)
}

func (ast *AST) Merge(src *AST) error {
	if src.Metadata != nil {
		if ast.Metadata == nil {
			ast.Metadata = data.NewObject()
		}
		for _, k := range src.Metadata.Keys() {
			ast.Metadata.Put(k, src.Metadata.Get(k))
		}
	}
	for _, k := range src.Shapes.Keys() {
		if ast.GetShape(k) != nil {
			return fmt.Errorf("Duplicate shape in assembly: %s", k)
		}
		ast.PutShape(k, src.Shapes.Get(k))
	}
	return nil
}

func (ast *AST) Filter(tags []string) {}

func (ast *AST) Validate() error { return nil }

// IDL: the Smithy language is the library's business.
func (ast *AST) IDL(ns string) string { return data.Pretty(ast) }

func LoadAST(path string) (*AST, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("Cannot read smithy AST file: %v", err)
	}
	var ast *AST
	if err := json.Unmarshal(b, &ast); err != nil {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: %v", err)
	}
	if ast == nil || ast.Smithy == "" {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: %v", err)
	}
	return ast, nil
}

func Parse(path string) (*AST, error) {
	return nil, fmt.Errorf("not available: %s", strings.TrimSpace(path))
}

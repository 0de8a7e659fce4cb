package checks

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
)

// What the scheduler checks (package schedcheck) use of the tree model.

// Want is what a tree equal to the model shows through its accessors.
func Want(model []*ref.Elem) string { return treeText(model, visible) }

// Got is what the tree shows through its accessors.
func Got(c *engine.C, tree *embertree.RootElement) string {
	return treeText(observeTree(c, tree), asIs)
}

// Apply merges a message into the model.
func Apply(model []*ref.Elem, elems []*ref.Elem) []*ref.Elem {
	return applyModel(model, message{elems: elems}, nil)
}

// Small is an element with little in it.
func Small(k ref.Kind, number int32, mode int) *ref.Elem { return small(k, number, mode) }

// Clone copies an element and what is below it; all addressed by number.
func Clone(e *ref.Elem) *ref.Elem { return cloneElem(e) }

// Message is one message of the alphabet about the example tree.
type Message struct {
	Name  string
	Elems []*ref.Elem
	Bytes []byte
}

// Alphabet is the set of messages about the example tree.
func Alphabet() []Message {
	var l []Message
	for _, m := range alphabet() {
		l = append(l, Message{m.name, m.elems, m.b})
	}
	return l
}

// Encoded is the tree's encoding.
func Encoded(c *engine.C, tree *embertree.RootElement) []byte {
	w := &asn1.ASNWriter{}
	ok(c, tree.Encode(w), "encoding the tree")
	return written(w)
}

// Build makes an element with the library.
func Build(e *ref.Elem) *embertree.Element { return build(e) }

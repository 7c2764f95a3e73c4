package alpha

import "github.com/jhump/gopoet"

// R holds a reference.
type R struct{ V gopoet.Symbol }

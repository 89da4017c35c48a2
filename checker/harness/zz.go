// Package zzverif is analysed together with the module and never run.  Each
// function states, over symbolic arguments, what the exported functions of the
// module have to compute.  prove(name, c) is an obligation: c holds on every
// path that reaches it.
package zzverif

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func prove(name string, c bool) {}

// reach is an obligation: the point can be reached.
func reach(name string) {}

// noPanic is an obligation: no code of the module reached from this harness
// can crash.
func noPanic(name string) {}

// randomnessWorks: reading the system's randomness does not fail (where it
// does, the module gives up with a panic).
func randomnessWorks() {}

// uninterpreted functions
func anyScalar(name string, id party.ID) *ristretto.Scalar { return nil }
func anyPoint(name string, id party.ID) *ristretto.Element { return nil }

func scalarEq(a, b *ristretto.Scalar) bool { return a.Equal(b) == 1 }
func pointEq(a, b *ristretto.Element) bool { return a.Equal(b) == 1 }

package zzverif

import "github.com/taurusgroup/frost-ed25519/pkg/ristretto"

// noLeak: no secret decides a branch, is used by a variable-time operation, or
// is part of an error, a panic, or anything given to a function that may show
// it.
func noLeak(what string) {}

// published: s was sent to everyone, so what is known by knowing it is known.
func published(s *ristretto.Scalar) {}

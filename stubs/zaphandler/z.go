// Package zaphandler is a type-only stand-in for a module that is not available offline.
// It exists so that the packages importing it can be type-checked; it is never executed.
package zaphandler

import "log/slog"

type Option func()

func AddSource() Option { return nil }

// New mirrors zaphandler.New(core, opts...): the logger is taken as any so that this stub needs no zap.
func New(logger any, opts ...Option) slog.Handler { panic("stub") }

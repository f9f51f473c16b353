// Package meld is a type-only stand-in for a module that is not available offline.
package meld

import "log/slog"

func NewHandler(h slog.Handler) slog.Handler { panic("stub") }

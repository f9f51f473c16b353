// Package jsonlog is a type-only stand-in for a module that is not available offline.
package jsonlog

import (
	"io"
	"log/slog"
)

func New(level slog.Level, w io.Writer) slog.Handler { panic("stub") }

// Package handlers stands in for gorilla/handlers; the checks do not use what it provides.
package handlers

import (
	"io"

	"github.com/boynton/sadl/zzh/fake/http"
)

type CORSOption func()

func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }
func CORS(opts ...CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}
func AllowedOrigins([]string) CORSOption { return nil }
func AllowedHeaders([]string) CORSOption { return nil }
func AllowedMethods([]string) CORSOption { return nil }

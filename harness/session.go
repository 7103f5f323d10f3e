package zzverif

import (
	"context"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// withInvocation calls f with an invocation of a session that has no data
func withInvocation(f func(ic api.Invocation)) {
	withTop(func(sdk.ProviderContext, string) dgo.Value { return nil }, nil, func(s api.Session) { f(s.Invocation(nil, nil)) })
}

// withTop calls f with a session that has the given top provider
func withTop(tp sdk.LookupKey, opts interface{}, f func(s api.Session)) {
	if opts == nil {
		opts = vf.Map(api.HieraConfig, `/nonexistent/hiera.yaml`)
	}
	hiera.DoWithParent(context.Background(), tp, opts, f)
}

var ctx = context.Background()

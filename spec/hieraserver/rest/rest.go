package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"regexp"
	"strconv"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/spf13/cobra"
)

// everything after /lookup/ is the key
var specKey = regexp.MustCompile(`(?s)^/lookup/(.*)$`)

// specReplyFailure replies with the text of a failure. What is neither an error nor a text is not a failed lookup.
func specReplyFailure(w http.ResponseWriter, failure interface{}) {
	switch f := failure.(type) {
	case error:
		http.Error(w, f.Error(), 500)
	case string:
		http.Error(w, errors.New(f).Error(), 500)
	default:
		panic(failure)
	}
}

// The options of a request are its own: those of the server with the default, merge, type and variables of the request.
//
//@ contract CreateRouter
//@ property C21
func specCreateRouter(ctx api.Session) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		m := specKey.FindStringSubmatch(r.URL.Path)
		if m == nil {
			http.NotFound(w, r)
			return
		}
		key := m[1]
		defer func() {
			if f := recover(); f != nil {
				specReplyFailure(w, f)
			}
		}()
		o := cmdOpts
		query := r.URL.Query()
		if d := query[`default`]; len(d) > 0 {
			o.Default = &d[0]
		}
		o.Merge = query.Get(`merge`)
		o.Type = query.Get(`type`)
		n := len(o.Variables)
		o.Variables = append(o.Variables[:n:n], query[`var`]...)
		o.RenderAs = `json`
		var body bytes.Buffer
		if !hiera.LookupAndRender(ctx, &o, []string{key}, &body) {
			http.Error(w, `404 value not found`, 404)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write(body.Bytes())
	})
}

// The flags set what the server is started with.
//
//@ contract newCommand
//@ property C21 C31
func specNewCommand() *cobra.Command {
	cmd := &cobra.Command{}
	cmd.Use = "server"
	cmd.Short = `Server - Start a Hiera REST server`
	cmd.Long = `Server - Start a REST server that performs lookups in a Hiera data storage.
  Responds to key lookups under the /lookup endpoint`
	cmd.Run = startServer
	cmd.Args = cobra.NoArgs
	f := cmd.Flags()
	f.StringVar(&logLevel, `loglevel`, `error`, `error/warn/info/debug`)
	f.StringVar(&configPath, `config`, `/hiera/hiera.yaml`, `path to the hiera config file. Overrides /hiera/hiera.yaml`)
	f.StringArrayVar(&cmdOpts.VarPaths, `vars`, nil,
		`path to a JSON or YAML file that contains key-value mappings to become variables for this lookup`)
	f.StringArrayVar(&cmdOpts.Variables, `var`, nil,
		`variable as a key:value or key=value where value is a literal expressed in Puppet DSL`)
	f.StringVar(&addr, `addr`, ``, `ip address to listen on`)
	f.StringVar(&sslKey, `ssl-key`, ``, `ssl private key`)
	f.StringVar(&sslCert, `ssl-cert`, ``, `ssl certificate`)
	f.StringVar(&clientCA, `ca`, ``, `certificate authority to use to verify clients`)
	f.BoolVar(&clientCertVerify, `clientCertVerify`, false, `verify client certificate`)
	f.IntVar(&port, `port`, 8080, `port number to listen to`)
	return cmd
}

// The server answers from the configuration and then from the environment.
//
//@ contract startServer
//@ property C21 C31
func specStartServer(_ *cobra.Command, _ []string) {
	options := map[string]interface{}{
		api.HieraConfig:             configPath,
		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}}
	hiera.DoWithParent(context.Background(), provider.MuxLookupKey, options, func(s api.Session) {
		server := &http.Server{}
		server.Handler = CreateRouter(s)
		server.Addr = addr + ":" + strconv.Itoa(port)
		cfg, err := makeTLSconfig()
		if err != nil {
			panic(err)
		}
		if cfg == nil {
			err = server.ListenAndServe()
		} else {
			server.TLSConfig = cfg
			err = server.ListenAndServeTLS("", "")
		}
		if err != nil {
			panic(err)
		}
	})
}

// The server uses TLS when it has a certificate and a key.
//
//@ contract makeTLSconfig
//@ errvalue any
//@ property C31
func specMakeTLSConfig() (*tls.Config, error) {
	if sslKey == "" || sslCert == "" {
		return nil, nil
	}
	cfg := &tls.Config{}
	own, err := tls.LoadX509KeyPair(sslCert, sslKey)
	if err != nil {
		return cfg, err
	}
	cfg.Certificates = []tls.Certificate{own}
	if clientCertVerify {
		cfg.ClientAuth = tls.RequireAndVerifyClientCert
	}
	if clientCA == "" {
		return cfg, nil
	}
	authorities, err := loadCertPool(clientCA)
	if err != nil {
		return cfg, err
	}
	cfg.ClientCAs = authorities
	return cfg, nil
}

//@ contract loadCertPool
//@ errvalue any
//@ property C31
func specLoadCertPool(file string) (*x509.CertPool, error) {
	pem, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, err
	}
	pool := x509.NewCertPool()
	if !pool.AppendCertsFromPEM(pem) {
		return nil, fmt.Errorf("failed to load certificate %q", file)
	}
	return pool, nil
}

// A server that cannot be started ends the program with status 1, after its error has been printed.
//
//@ contract main
//@ property C31
func specRestMain() {
	server := newCommand()
	failure := server.Execute()
	if failure == nil {
		return
	}
	fmt.Println(server.OutOrStderr(), failure)
	os.Exit(1)
}

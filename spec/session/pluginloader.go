package session

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hierasdk/hiera"
	log "github.com/sirupsen/logrus"
)

// The handshake must name the protocol version, an address and the functions. The network is tcp unless it is named.
//
//@ contract (*plugin).initialize
//@ property C25
func specInitialize(p *plugin, meta map[string]interface{}) {
	version, isNumber := meta[`version`].(float64)
	if !isNumber || version != hiera.ProtoVersion {
		panic(fmt.Errorf(`plugin %s uses unsupported protocol %v`, p.path, version))
	}
	address, hasAddress := meta[`address`].(string)
	p.addr = address
	if !hasAddress {
		panic(fmt.Errorf(`plugin %s did not provide a valid address`, p.path))
	}
	if network, ok := meta[`network`].(string); ok {
		p.network = network
	} else {
		p.network = network
		log.Printf(`plugin %s did not provide a valid network, assuming tcp`, p.path)
		p.network = `tcp`
	}
	functions, hasFunctions := meta[`functions`].(map[string]interface{})
	p.functions = functions
	if !hasFunctions {
		panic(fmt.Errorf(`plugin %s did not provide a valid functions map`, p.path))
	}
}

// Every function is called as what it was listed as.
//
//@ contract (*plugin).functionMap
//@ property C25
func specFunctionMap(p *plugin) dgo.Value {
	functions := vf.MutableMap()
	for kind, list := range p.functions {
		names := list.([]interface{})
		for i := range names {
			name := names[i].(string)
			switch kind {
			case `data_dig`:
				functions.Put(name, p.dataDigDispatch(name))
			case `data_hash`:
				functions.Put(name, p.dataHashDispatch(name))
			default:
				functions.Put(name, p.lookupKeyDispatch(name))
			}
		}
	}
	return loader.Multiple(functions)
}

//@ contract (*plugin).dataDigDispatch
//@ property C25
func specDataDigDispatch(p *plugin, name string) dgo.Function {
	return vf.Value(func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
		params := makeOptions(pc)
		params.Add(`key`, string(streamer.MarshalJSON(key, nil)))
		return p.callPlugin(`data_dig`, name, params)
	}).(dgo.Function)
}

//@ contract (*plugin).dataHashDispatch
//@ property C25
func specDataHashDispatch(p *plugin, name string) dgo.Function {
	return vf.Value(func(pc hiera.ProviderContext) dgo.Value {
		return p.callPlugin(`data_hash`, name, makeOptions(pc))
	}).(dgo.Function)
}

//@ contract (*plugin).lookupKeyDispatch
//@ property C25
func specLookupKeyDispatch(p *plugin, name string) dgo.Function {
	return vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value {
		params := makeOptions(pc)
		params.Add(`key`, key)
		return p.callPlugin(`lookup_key`, name, params)
	}).(dgo.Function)
}

// The options, if there are any, are passed as JSON.
//
//@ contract makeOptions
//@ property C25
func specMakeOptions(pc hiera.ProviderContext) url.Values {
	params := url.Values{}
	opts := pc.OptionsMap()
	if opts.Len() == 0 {
		return params
	}
	var text bytes.Buffer
	streamer.New(nil, streamer.DefaultOptions()).Stream(opts, streamer.JSON(&text))
	params.Add(`options`, strings.TrimSpace(text.String()))
	return params
}

// The reply 200 carries the value, 404 means that there is none, and everything else is an error.
//
//@ contract (*plugin).callPlugin
//@ property C25
func specCallPlugin(p *plugin, luType, name string, params url.Values) dgo.Value {
	host := p.addr
	if p.network == `unix` {
		host = p.network
	}
	ad, err := url.Parse(fmt.Sprintf(`http://%s/%s/%s`, host, luType, name))
	if err != nil {
		panic(err)
	}
	if len(params) > 0 {
		ad.RawQuery = params.Encode()
	}
	address := ad.String()
	transport := &http.Transport{DisableKeepAlives: true}
	transport.Dial = func(_, _ string) (net.Conn, error) { return net.Dial(p.network, p.addr) }
	client := http.Client{Timeout: 5000 * time.Millisecond, Transport: transport}
	reply, err := client.Get(address)
	if err != nil {
		panic(err.Error())
	}
	defer func() { _ = reply.Body.Close() }()
	if reply.StatusCode == 404 {
		return nil
	}
	body, err := ioutil.ReadAll(reply.Body)
	if reply.StatusCode == 200 {
		if err != nil {
			panic(err)
		}
		return streamer.UnmarshalJSON(body, nil)
	}
	if err != nil {
		panic(fmt.Errorf(`%s %s`, address, reply.Status))
	}
	panic(fmt.Errorf(`%s %s: %s`, address, reply.Status, string(body)))
}

//@ contract getUnixSocketDir
//@ property C25
//@ effects none
func specUnixSocketDir(opts dgo.Map) string {
	if dir, ok := opts.Get(`unixSocketDir`).(dgo.String); ok {
		return dir.GoString()
	}
	if dir := os.TempDir(); dir != `` {
		return dir
	}
	return defaultUnixSocketDir
}

//@ contract getPluginTransport
//@ property C25
//@ effects none
func specPluginTransport(opts dgo.Map) string {
	if t, ok := opts.Get(`pluginTransport`).(dgo.String); ok {
		if t.GoString() == `unix` || t.GoString() == `tcp` {
			return t.GoString()
		}
	}
	return getDefaultPluginTransport()
}

// The plugin learns the cookie, the transport and the directory for its socket from its environment.
//
//@ contract initCmd
//@ failstate any
//@ property C25
func specInitCmd(opts dgo.Map, path string) *exec.Cmd {
	cmd := exec.Command(path)
	env := append(os.Environ(), `HIERA_MAGIC_COOKIE=`+strconv.Itoa(hiera.MagicCookie))
	cmd.Env = env
	cmd.Env = append(cmd.Env, `HIERA_PLUGIN_SOCKET_DIR=`+getUnixSocketDir(opts))
	cmd.Env = append(cmd.Env, `HIERA_PLUGIN_TRANSPORT=`+getPluginTransport(opts))
	cmd.SysProcAttr = procAttrs
	return cmd
}

//@ contract createPipe
//@ property C25
func specCreatePipe(path, name string, fn func() (io.ReadCloser, error)) io.ReadCloser {
	pipe, err := fn()
	if err != nil {
		panic(fmt.Errorf(`unable to create %s pipe to plugin %s: %s`, name, path, err.Error()))
	}
	return pipe
}

// The handshake is the first JSON value of the output.
//
//@ contract awaitMetaData
//@ property C25 C30
func specAwaitMetaData(metaCh chan interface{}, cmdOut io.Reader, wGroup *sync.WaitGroup) {
	defer wGroup.Done()
	var meta map[string]interface{}
	if err := json.NewDecoder(cmdOut).Decode(&meta); err != nil {
		metaCh <- err
		return
	}
	metaCh <- meta
}

// A plugin is started once. One that does not answer in time, or not with a proper handshake, is an error and is killed.
//
//@ contract (*pluginRegistry).startPlugin
//@ property C25 C30
func specStartPlugin(r *pluginRegistry, opts dgo.Map, path string) dgo.Value {
	r.lock.Lock()
	defer r.lock.Unlock()
	if r.plugins != nil {
		if known, ok := r.plugins[path]; ok {
			return known.functionMap()
		}
	}
	cmd := initCmd(opts, path)
	errs := createPipe(path, `stderr`, cmd.StderrPipe)
	out := createPipe(path, `stdout`, cmd.StdoutPipe)
	if err := cmd.Start(); err != nil {
		panic(fmt.Errorf(`unable to start plugin %s: %s`, path, err.Error()))
	}
	defer func() {
		if failure := recover(); failure != nil {
			_ = cmd.Process.Kill()
			panic(failure)
		}
	}()
	p := &plugin{}
	p.path = path
	p.process = cmd.Process
	p.wGroup.Add(1)
	go copyErrToLog(path, errs, &p.wGroup)
	answer := make(chan interface{})
	p.wGroup.Add(1)
	go awaitMetaData(answer, out, &p.wGroup)
	late := time.After(3000 * time.Millisecond)
	var meta interface{}
	select {
	case <-late:
		panic(fmt.Errorf(`timeout while waiting for plugin %s to start`, path))
	case meta = <-answer:
	}
	if err, failed := meta.(error); failed {
		panic(fmt.Errorf(`error reading meta data of plugin %s: %s`, path, err.Error()))
	}
	handshake := meta.(map[string]interface{})
	p.wGroup.Add(1)
	go ignoreOut(out, &p.wGroup)
	if r.plugins == nil {
		r.plugins = map[string]*plugin{}
	}
	p.initialize(handshake)
	r.plugins[path] = p
	return p.functionMap()
}

// All plugins are stopped and then forgotten.
//
//@ contract (*pluginRegistry).stopAll
//@ property C25 C30
func specStopAll(r *pluginRegistry) {
	r.lock.Lock()
	defer r.lock.Unlock()
	for _, p := range r.plugins {
		p.kill()
	}
	r.plugins = nil
}

// What a plugin writes to its standard error appears in the log, line by line.
//
//@ contract copyErrToLog
//@ property C25 C30
func specCopyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
	defer wGroup.Done()
	out := log.StandardLogger().Out
	lines := bufio.NewReaderSize(cmdErr, 65536)
	for {
		line, more, err := lines.ReadLine()
		if err == io.EOF {
			return
		}
		if err != nil {
			log.Errorf(`error reading stderr of plugin %s: %s`, path, err.Error())
			return
		}
		_, _ = out.Write(line)
		if !more {
			_, _ = out.Write([]byte{10})
		}
	}
}

//@ contract getDefaultPluginTransport
//@ effects none
//@ nopanic
//@ property C25
func specDefaultPluginTransport() string { return "unix" }

// What a plugin writes after the handshake is dropped.
//
//@ contract ignoreOut
//@ property C25 C30
func specIgnoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
	defer wGroup.Done()
	buf := make([]byte, 4096)
	for {
		if _, err := cmdOut.Read(buf); err == io.EOF {
			break
		}
	}
}

// A plugin that has a process is told to terminate. It is killed when it cannot be told or does not end within three
// seconds. It has no process afterwards, and what it wrote has been read.
//
//@ contract (*plugin).kill
//@ property C30
func specKill(p *plugin) {
	p.lock.Lock()
	defer p.lock.Unlock()
	running := p.process
	if running != nil {
		defer func() {
			p.wGroup.Wait()
			p.process = nil
		}()
		if terminateProc(running) != nil {
			_ = running.Kill()
			return
		}
		ended := make(chan bool)
		go func() {
			_, _ = running.Wait()
			ended <- true
		}()
		select {
		case <-time.After(3000 * time.Millisecond):
			_ = running.Kill()
		case <-ended:
		}
	}
}

// A plugin is told to terminate by an interrupt.
//
//@ contract terminateProc
//@ property C30
func specTerminateProc(process *os.Process) error {
	return process.Signal(syscall.Signal(2))
}

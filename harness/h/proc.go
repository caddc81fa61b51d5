package h

import (
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"codeberg.org/emersion/soju/database"
	"golang.org/x/crypto/bcrypt"
)

// Proc is a bouncer run as its real executable.
type Proc struct {
	T      *T
	W      *World // used for client connections
	Dir    string
	Store  string
	Extra  []string // extra configuration lines
	Listen []string // extra listeners
	Debug  bool
	Log    *LogBuf
	cmd    *exec.Cmd
	exited chan struct{}
	mu     sync.Mutex
}

// NewProc prepares a bouncer process in the case's scratch directory. Users
// and networks are added through DB before Start.
func NewProc(t *T, store string) *Proc {
	p := &Proc{T: t, Dir: t.Dir(), Store: store, Log: &LogBuf{}}
	p.W = &World{T: t, Store: store, Log: p.Log, Auth: &FastAuth{pw: map[string]string{}}, userID: map[string]int64{}}
	p.W.ExtDial = func(admin bool) (net.Conn, error) {
		if admin {
			return net.Dial("unix", p.AdminPath())
		}
		return net.Dial("unix", p.SockPath())
	}
	p.W.DBPath = filepath.Join(p.Dir, "soju.db")
	p.W.openDB()
	t.Cleanup(p.Kill)
	return p
}

func (p *Proc) SockPath() string   { return filepath.Join(p.Dir, "irc.sock") }
func (p *Proc) AdminPath() string  { return filepath.Join(p.Dir, "admin.sock") }
func (p *Proc) ConfigPath() string { return filepath.Join(p.Dir, "config") }

// Bin returns the path of an executable built by check.sh.
func Bin(name string) string { return filepath.Join(os.Getenv("VERIF_BIN"), name) }

// SetPassword gives a user record a cheap bcrypt password.
func SetPassword(u *database.User, pw string) {
	b, err := bcrypt.GenerateFromPassword([]byte(pw), bcrypt.MinCost)
	Must(err)
	u.Password = string(b)
}

// AddUser creates a user with password pw-<name> in the database.
func (p *Proc) AddUser(name string, admin bool) *database.User {
	return p.W.AddUser(name, admin, func(u *database.User) { SetPassword(u, "pw-"+name) })
}

// ConfigText returns the configuration file.
func (p *Proc) ConfigText() string {
	lines := []string{
		"hostname soju.test",
		"db sqlite3 " + p.W.DBPath,
		"listen unix://" + p.SockPath(),
		"listen unix+admin://" + p.AdminPath(),
	}
	switch p.Store {
	case "fs":
		lines = append(lines, "message-store fs "+filepath.Join(p.Dir, "logs"))
	case "db", "memory":
		lines = append(lines, "message-store "+p.Store)
	}
	for _, l := range p.Listen {
		lines = append(lines, "listen "+l)
	}
	lines = append(lines, p.Extra...)
	return strings.Join(lines, "\n") + "\n"
}

// Start runs the executable and waits until it accepts connections.
func (p *Proc) Start() { p.StartWith(p.ConfigText()) }

// StartWith is Start with a given configuration file.
func (p *Proc) StartWith(text string) {
	if p.W.DB != nil {
		Must(p.W.DB.Close())
		p.W.DB = nil
	}
	os.MkdirAll(filepath.Join(p.Dir, "logs"), 0755)
	Must(os.WriteFile(p.ConfigPath(), []byte(text), 0644))
	os.Remove(p.SockPath())
	os.Remove(p.AdminPath())
	args := []string{"-config", p.ConfigPath()}
	if p.Debug {
		args = append(args, "-debug")
	}
	cmd := exec.Command(Bin("soju"), args...)
	cmd.Stdout, cmd.Stderr = p.Log, p.Log
	cmd.Dir = p.Dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	Must(cmd.Start())
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	p.mu.Lock()
	p.cmd, p.exited = cmd, exited
	p.mu.Unlock()
	start := time.Now()
	for {
		c, err := net.Dial("unix", p.AdminPath())
		if err == nil {
			c.Close()
			if c, err = net.Dial("unix", p.SockPath()); err == nil {
				c.Close()
				return
			}
		}
		select {
		case <-exited:
			Failf("the bouncer exited while starting: %s", p.Log.String())
		default:
		}
		if time.Since(start) > Watchdog {
			panic(Stuck{"the bouncer does not accept connections: " + p.Log.String()})
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Kill kills the process at once.
func (p *Proc) Kill() {
	p.mu.Lock()
	cmd, exited := p.cmd, p.exited
	p.cmd = nil
	p.mu.Unlock()
	if cmd == nil {
		return
	}
	cmd.Process.Kill()
	<-exited
}

// Exited tells whether the process has ended by itself.
func (p *Proc) Exited() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// Signal sends a signal.
func (p *Proc) Signal(s os.Signal) { p.cmd.Process.Signal(s) }

// Hup rewrites the configuration file and has it reloaded. It returns once
// the reload is over; accepted tells whether the file was accepted.
func (p *Proc) Hup(text string) (accepted bool) {
	// signals are handled once clients are
	c, err := net.Dial("unix", p.AdminPath())
	Must(err)
	c.SetDeadline(time.Now().Add(Watchdog))
	c.Write([]byte("BOUNCERSERV help\r\n"))
	if _, err := c.Read(make([]byte, 1)); err != nil {
		panic(Stuck{"no answer on the admin socket: " + err.Error() + ": " + tailStr(p.Log.String(), 1500)})
	}
	c.Close()
	Must(os.WriteFile(p.ConfigPath(), []byte(text), 0644))
	failed := strings.Count(p.Log.String(), "failed to reload")
	// the second reload starts only when the first is complete
	for i := 0; i < 2; i++ {
		n := strings.Count(p.Log.String(), "reloading configuration\n")
		p.Signal(syscall.SIGHUP)
		start := time.Now()
		for strings.Count(p.Log.String(), "reloading configuration\n") == n {
			if p.Exited() {
				Failf("the bouncer exited on SIGHUP: %s", tailStr(p.Log.String(), 1500))
			}
			if time.Since(start) > Watchdog {
				panic(Stuck{"the bouncer does not react to SIGHUP: " + tailStr(p.Log.String(), 2000)})
			}
			time.Sleep(time.Millisecond)
		}
	}
	return strings.Count(p.Log.String(), "failed to reload") == failed
}

// Reload is Hup with the current settings.
func (p *Proc) Reload() {
	if !p.Hup(p.ConfigText()) {
		Failf("a valid configuration was refused: %s", tailStr(p.Log.String(), 1500))
	}
}

// Term asks the process to stop and waits for it.
func (p *Proc) Term() {
	p.mu.Lock()
	cmd, exited := p.cmd, p.exited
	p.cmd = nil
	p.mu.Unlock()
	if cmd == nil {
		return
	}
	cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-exited:
	case <-time.After(Watchdog):
		cmd.Process.Kill()
		panic(Stuck{"the bouncer did not stop on SIGTERM: " + tailStr(p.Log.String(), 2000)})
	}
}

// OpenDB opens the database while the process is not running.
func (p *Proc) OpenDB() database.Database {
	db, err := database.Open("sqlite3", p.W.DBPath)
	Must(err)
	return db
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var _ = context.Background
var _ = fmt.Sprint

var portSeq = uint32(time.Now().UnixNano() / 1000)

// FreePort picks a TCP port outside the range used for outgoing connections.
func FreePort() int {
	for {
		p := 15000 + int(atomic.AddUint32(&portSeq, 7))%17000
		ln, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
}

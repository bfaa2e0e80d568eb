// genalias writes zz_alias.go into the stand-in packages: every exported name
// of the real package that the stand-in does not define itself, if harmless.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = []struct {
	dir, std string
	skip     string // space separated names that must not exist
	only     string // if set, only these
}{
	{"xtime", "time", "", ""},
	{"xio", "io", "", ""},
	{"xos", "os", "", "O_RDONLY O_WRONLY O_RDWR O_APPEND O_CREATE O_EXCL O_SYNC O_TRUNC SEEK_SET SEEK_CUR SEEK_END PathSeparator PathListSeparator ModeDir ModeAppend ModeExclusive ModeTemporary ModeSymlink ModeDevice ModeNamedPipe ModeSocket ModeSetuid ModeSetgid ModeCharDevice ModeSticky ModeIrregular ModeType ModePerm DevNull ErrInvalid ErrPermission ErrExist ErrNotExist ErrClosed ErrNoDeadline ErrDeadlineExceeded ErrProcessDone DirEntry FileInfo FileMode PathError LinkError SyscallError Signal Interrupt Kill IsExist IsNotExist IsPermission IsTimeout IsPathSeparator NewSyscallError Expand"},
	{"xfilepath", "path/filepath", "", ""},
	{"xzip", "archive/zip", "", ""},
	{"xruntime", "runtime", "", "Goexit Caller Callers CallersFrames FuncForPC Frame Frames Func Error MemStats ReadMemStats Stack KeepAlive SetFinalizer TypeAssertionError"},
	{"xlog", "log", "", ""},
	{"xsyscall", "syscall", "", "Errno Signal WaitStatus Stat_t SysProcAttr Credential Timespec Rusage E2BIG EACCES EADDRINUSE EADDRNOTAVAIL EADV EAFNOSUPPORT EAGAIN EALREADY EBADE EBADF EBADFD EBADMSG EBADR EBADRQC EBADSLT EBFONT EBUSY ECANCELED ECHILD ECHO ECHOCTL ECHOE ECHOK ECHOKE ECHONL ECHOPRT ECHRNG ECOMM ECONNABORTED ECONNREFUSED ECONNRESET EDEADLK EDEADLOCK EDESTADDRREQ EDOM EDOTDOT EDQUOT EEXIST EFAULT EFBIG EHOSTDOWN EHOSTUNREACH EIDRM EILSEQ EINPROGRESS EINTR EINVAL EIO EISCONN EISDIR EISNAM EKEYEXPIRED EKEYREJECTED EKEYREVOKED EL2HLT EL2NSYNC EL3HLT EL3RST ELIBACC ELIBBAD ELIBEXEC ELIBMAX ELIBSCN ELNRNG ELOOP EMEDIUMTYPE EMFILE EMLINK EMSGSIZE EMULTIHOP ENAMETOOLONG ENAVAIL ENETDOWN ENETRESET ENETUNREACH ENFILE ENOANO ENOBUFS ENOCSI ENODATA ENODEV ENOENT ENOEXEC ENOKEY ENOLCK ENOLINK ENOMEDIUM ENOMEM ENOMSG ENONET ENOPKG ENOPROTOOPT ENOSPC ENOSR ENOSTR ENOSYS ENOTBLK ENOTCONN ENOTDIR ENOTEMPTY ENOTNAM ENOTRECOVERABLE ENOTSOCK ENOTSUP ENOTTY ENOTUNIQ ENXIO EOF EOPNOTSUPP EOVERFLOW EOWNERDEAD EPERM EPFNOSUPPORT EPIPE EPOLLERR EPOLLET EPOLLHUP EPOLLIN EPOLLMSG EPOLLONESHOT EPOLLOUT EPOLLPRI EPOLLRDBAND EPOLLRDHUP EPOLLRDNORM EPOLLWRBAND EPOLLWRNORM EPROTO EPROTONOSUPPORT EPROTOTYPE ERANGE EREMCHG EREMOTE EREMOTEIO ERESTART ERFKILL EROFS ESHUTDOWN ESOCKTNOSUPPORT ESPIPE ESRCH ESRMNT ESTALE ESTRPIPE ETIME ETIMEDOUT ETOOMANYREFS ETXTBSY EUCLEAN EUNATCH EUSERS EWOULDBLOCK EXDEV EXFULL O_ACCMODE O_APPEND O_ASYNC O_CLOEXEC O_CREAT O_DIRECT O_DIRECTORY O_DSYNC O_EXCL O_FSYNC O_LARGEFILE O_NDELAY O_NOATIME O_NOCTTY O_NOFOLLOW O_NONBLOCK O_RDONLY O_RDWR O_RSYNC O_SYNC O_TRUNC O_WRONLY SIGABRT SIGALRM SIGBUS SIGCHLD SIGCLD SIGCONT SIGFPE SIGHUP SIGILL SIGINT SIGIO SIGIOT SIGKILL SIGPIPE SIGPOLL SIGPROF SIGPWR SIGQUIT SIGSEGV SIGSTKFLT SIGSTOP SIGSYS SIGTERM SIGTRAP SIGTSTP SIGTTIN SIGTTOU SIGUNUSED SIGURG SIGUSR1 SIGUSR2 SIGVTALRM SIGWINCH SIGXCPU SIGXFSZ S_IEXEC S_IFBLK S_IFCHR S_IFDIR S_IFIFO S_IFLNK S_IFMT S_IFREG S_IFSOCK S_IREAD S_IRGRP S_IROTH S_IRUSR S_IRWXG S_IRWXO S_IRWXU S_ISGID S_ISUID S_ISVTX S_IWGRP S_IWOTH S_IWRITE S_IWUSR S_IXGRP S_IXOTH S_IXUSR"},
	{"xrand", "math/rand", "NewZipf", ""},
	{"xrandv2", "math/rand/v2", "NewZipf PCG ChaCha8", ""},
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, p := range pkgs {
		real, err := imp.Import(p.std)
		if err != nil {
			panic(err)
		}
		have := map[string]bool{}
		for _, s := range strings.Fields(p.skip) {
			have[s] = true
		}
		files, _ := filepath.Glob(filepath.Join(root, p.dir, "*.go"))
		pname := p.dir
		for _, f := range files {
			if filepath.Base(f) == "zz_alias.go" {
				continue
			}
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range a.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		only := map[string]bool{}
		for _, s := range strings.Fields(p.only) {
			only[s] = true
		}
		var names []string
		for _, n := range real.Scope().Names() {
			o := real.Scope().Lookup(n)
			if !o.Exported() || have[n] || len(only) > 0 && !only[n] {
				continue
			}
			names = append(names, n)
		}
		sort.Strings(names)
		out := fmt.Sprintf("// Code generated by genalias. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pname, p.std)
		n := 0
		for _, nm := range names {
			switch o := real.Scope().Lookup(nm).(type) {
			case *types.Const:
				out += fmt.Sprintf("const %s = real.%s\n", nm, nm)
			case *types.TypeName:
				out += fmt.Sprintf("type %s = real.%s\n", nm, nm)
			case *types.Var:
				out += fmt.Sprintf("var %s = real.%s\n", nm, nm)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams() != nil {
					continue
				}
				out += fmt.Sprintf("var %s = real.%s\n", nm, nm)
			}
			n++
		}
		if n == 0 {
			continue
		}
		b, err := format.Source([]byte(out))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(root, p.dir, "zz_alias.go"), b, 0644)
	}
}

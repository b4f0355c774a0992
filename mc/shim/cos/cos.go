// Code generated by mcgen shim. DO NOT EDIT.

// Package cos stands in for os in the instrumented code.
package cos

import (
	"io/fs"
	"os"
	"time"
	rt "verif.local/mc/rtcli"
)

var Args = os.Args

func Chdir(a0 string) (r0 error) {
	if e := rt.Op("os.Chdir", a0); e != nil {
		r0 = e
		return
	}
	return os.Chdir(a0)
}
func Chmod(a0 string, a1 os.FileMode) (r0 error) {
	if e := rt.Op("os.Chmod", a0); e != nil {
		r0 = e
		return
	}
	return os.Chmod(a0, a1)
}
func Chown(a0 string, a1 int, a2 int) (r0 error) {
	if e := rt.Op("os.Chown", a0); e != nil {
		r0 = e
		return
	}
	return os.Chown(a0, a1, a2)
}
func Chtimes(a0 string, a1 time.Time, a2 time.Time) (r0 error) {
	if e := rt.Op("os.Chtimes", a0); e != nil {
		r0 = e
		return
	}
	return os.Chtimes(a0, a1, a2)
}

var Clearenv = os.Clearenv

func CopyFS(a0 string, a1 fs.FS) (r0 error) {
	if e := rt.Op("os.CopyFS", a0); e != nil {
		r0 = e
		return
	}
	return os.CopyFS(a0, a1)
}
func Create(a0 string) (r0 *os.File, r1 error) {
	if e := rt.Op("os.Create", a0); e != nil {
		r1 = e
		return
	}
	return os.Create(a0)
}
func CreateTemp(a0 string, a1 string) (r0 *os.File, r1 error) {
	if e := rt.Op("os.CreateTemp", a0, a1); e != nil {
		r1 = e
		return
	}
	return os.CreateTemp(a0, a1)
}

const DevNull = os.DevNull

type DirEntry = os.DirEntry

var DirFS = os.DirFS
var Environ = os.Environ
var ErrClosed = os.ErrClosed
var ErrDeadlineExceeded = os.ErrDeadlineExceeded
var ErrExist = os.ErrExist
var ErrInvalid = os.ErrInvalid
var ErrNoDeadline = os.ErrNoDeadline
var ErrNoHandle = os.ErrNoHandle
var ErrNotExist = os.ErrNotExist
var ErrPermission = os.ErrPermission
var ErrProcessDone = os.ErrProcessDone
var Executable = os.Executable
var Exit = os.Exit
var Expand = os.Expand
var ExpandEnv = os.ExpandEnv

type File = os.File
type FileInfo = os.FileInfo
type FileMode = os.FileMode

var FindProcess = os.FindProcess
var Getegid = os.Getegid
var Getenv = os.Getenv
var Geteuid = os.Geteuid
var Getgid = os.Getgid
var Getgroups = os.Getgroups
var Getpagesize = os.Getpagesize
var Getpid = os.Getpid
var Getppid = os.Getppid
var Getuid = os.Getuid
var Getwd = os.Getwd
var Hostname = os.Hostname
var Interrupt = os.Interrupt
var IsExist = os.IsExist
var IsNotExist = os.IsNotExist
var IsPathSeparator = os.IsPathSeparator
var IsPermission = os.IsPermission
var IsTimeout = os.IsTimeout
var Kill = os.Kill

func Lchown(a0 string, a1 int, a2 int) (r0 error) {
	if e := rt.Op("os.Lchown", a0); e != nil {
		r0 = e
		return
	}
	return os.Lchown(a0, a1, a2)
}
func Link(a0 string, a1 string) (r0 error) {
	if e := rt.Op("os.Link", a0, a1); e != nil {
		r0 = e
		return
	}
	return os.Link(a0, a1)
}

type LinkError = os.LinkError

var LookupEnv = os.LookupEnv

func Lstat(a0 string) (r0 os.FileInfo, r1 error) {
	if e := rt.Op("os.Lstat", a0); e != nil {
		r1 = e
		return
	}
	return os.Lstat(a0)
}
func Mkdir(a0 string, a1 os.FileMode) (r0 error) {
	if e := rt.Op("os.Mkdir", a0); e != nil {
		r0 = e
		return
	}
	return os.Mkdir(a0, a1)
}
func MkdirAll(a0 string, a1 os.FileMode) (r0 error) {
	if e := rt.Op("os.MkdirAll", a0); e != nil {
		r0 = e
		return
	}
	return os.MkdirAll(a0, a1)
}
func MkdirTemp(a0 string, a1 string) (r0 string, r1 error) {
	if e := rt.Op("os.MkdirTemp", a0, a1); e != nil {
		r1 = e
		return
	}
	return os.MkdirTemp(a0, a1)
}

const ModeAppend = os.ModeAppend
const ModeCharDevice = os.ModeCharDevice
const ModeDevice = os.ModeDevice
const ModeDir = os.ModeDir
const ModeExclusive = os.ModeExclusive
const ModeIrregular = os.ModeIrregular
const ModeNamedPipe = os.ModeNamedPipe
const ModePerm = os.ModePerm
const ModeSetgid = os.ModeSetgid
const ModeSetuid = os.ModeSetuid
const ModeSocket = os.ModeSocket
const ModeSticky = os.ModeSticky
const ModeSymlink = os.ModeSymlink
const ModeTemporary = os.ModeTemporary
const ModeType = os.ModeType

var NewFile = os.NewFile
var NewSyscallError = os.NewSyscallError

const O_APPEND = os.O_APPEND
const O_CREATE = os.O_CREATE
const O_EXCL = os.O_EXCL
const O_RDONLY = os.O_RDONLY
const O_RDWR = os.O_RDWR
const O_SYNC = os.O_SYNC
const O_TRUNC = os.O_TRUNC
const O_WRONLY = os.O_WRONLY

func Open(a0 string) (r0 *os.File, r1 error) {
	if e := rt.Op("os.Open", a0); e != nil {
		r1 = e
		return
	}
	return os.Open(a0)
}
func OpenFile(a0 string, a1 int, a2 os.FileMode) (r0 *os.File, r1 error) {
	if e := rt.Op("os.OpenFile", a0); e != nil {
		r1 = e
		return
	}
	return os.OpenFile(a0, a1, a2)
}
func OpenInRoot(a0 string, a1 string) (r0 *os.File, r1 error) {
	if e := rt.Op("os.OpenInRoot", a0, a1); e != nil {
		r1 = e
		return
	}
	return os.OpenInRoot(a0, a1)
}
func OpenRoot(a0 string) (r0 *os.Root, r1 error) {
	if e := rt.Op("os.OpenRoot", a0); e != nil {
		r1 = e
		return
	}
	return os.OpenRoot(a0)
}

type PathError = os.PathError

const PathListSeparator = os.PathListSeparator
const PathSeparator = os.PathSeparator

func Pipe() (r0 *os.File, r1 *os.File, r2 error) {
	if e := rt.Op("os.Pipe"); e != nil {
		r2 = e
		return
	}
	return os.Pipe()
}

type ProcAttr = os.ProcAttr
type Process = os.Process
type ProcessState = os.ProcessState

func ReadDir(a0 string) (r0 []os.DirEntry, r1 error) {
	if e := rt.Op("os.ReadDir", a0); e != nil {
		r1 = e
		return
	}
	return os.ReadDir(a0)
}
func ReadFile(a0 string) (r0 []byte, r1 error) {
	if e := rt.Op("ioutil.ReadFile", a0); e != nil {
		r1 = e
		return
	}
	return os.ReadFile(a0)
}
func Readlink(a0 string) (r0 string, r1 error) {
	if e := rt.Op("os.Readlink", a0); e != nil {
		r1 = e
		return
	}
	return os.Readlink(a0)
}
func Remove(a0 string) (r0 error) {
	if e := rt.Op("os.Remove", a0); e != nil {
		r0 = e
		return
	}
	return os.Remove(a0)
}
func Rename(a0 string, a1 string) (r0 error) {
	if e := rt.Op("os.Rename", a0, a1); e != nil {
		r0 = e
		return
	}
	return os.Rename(a0, a1)
}

type Root = os.Root

const SEEK_CUR = os.SEEK_CUR
const SEEK_END = os.SEEK_END
const SEEK_SET = os.SEEK_SET

var SameFile = os.SameFile
var Setenv = os.Setenv

type Signal = os.Signal

func StartProcess(a0 string, a1 []string, a2 *os.ProcAttr) (r0 *os.Process, r1 error) {
	if e := rt.Op("os.StartProcess", a0); e != nil {
		r1 = e
		return
	}
	return os.StartProcess(a0, a1, a2)
}
func Stat(a0 string) (r0 os.FileInfo, r1 error) {
	if e := rt.Op("os.Stat", a0); e != nil {
		r1 = e
		return
	}
	return os.Stat(a0)
}

var Stderr = os.Stderr
var Stdin = os.Stdin
var Stdout = os.Stdout

func Symlink(a0 string, a1 string) (r0 error) {
	if e := rt.Op("os.Symlink", a0, a1); e != nil {
		r0 = e
		return
	}
	return os.Symlink(a0, a1)
}

type SyscallError = os.SyscallError

var TempDir = os.TempDir

func Truncate(a0 string, a1 int64) (r0 error) {
	if e := rt.Op("os.Truncate", a0); e != nil {
		r0 = e
		return
	}
	return os.Truncate(a0, a1)
}

var Unsetenv = os.Unsetenv
var UserCacheDir = os.UserCacheDir
var UserConfigDir = os.UserConfigDir
var UserHomeDir = os.UserHomeDir

func WriteFile(a0 string, a1 []byte, a2 os.FileMode) (r0 error) {
	if e := rt.Op("ioutil.WriteFile", a0); e != nil {
		if rt.Half() {
			_ = os.WriteFile(a0, a1[:len(a1)/2], a2)
		}
		r0 = e
		return
	}
	return os.WriteFile(a0, a1, a2)
}

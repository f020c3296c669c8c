package fos

import "os"

const DevNull = os.DevNull
const ModeAppend = os.ModeAppend
const ModeCharDevice = os.ModeCharDevice
const ModeDevice = os.ModeDevice
const ModeDir = os.ModeDir
const ModeExclusive = os.ModeExclusive
const ModeIrregular = os.ModeIrregular
const ModeNamedPipe = os.ModeNamedPipe
const ModePerm = os.ModePerm
const ModeSetgid = os.ModeSetgid
const ModeSetuid = os.ModeSetuid
const ModeSocket = os.ModeSocket
const ModeSticky = os.ModeSticky
const ModeSymlink = os.ModeSymlink
const ModeTemporary = os.ModeTemporary
const ModeType = os.ModeType
const O_APPEND = os.O_APPEND
const O_CREATE = os.O_CREATE
const O_EXCL = os.O_EXCL
const O_RDONLY = os.O_RDONLY
const O_RDWR = os.O_RDWR
const O_SYNC = os.O_SYNC
const O_TRUNC = os.O_TRUNC
const O_WRONLY = os.O_WRONLY
const PathListSeparator = os.PathListSeparator
const PathSeparator = os.PathSeparator
const SEEK_CUR = os.SEEK_CUR
const SEEK_END = os.SEEK_END
const SEEK_SET = os.SEEK_SET

type DirEntry = os.DirEntry
type FileInfo = os.FileInfo
type FileMode = os.FileMode
type LinkError = os.LinkError
type PathError = os.PathError
type ProcAttr = os.ProcAttr
type Process = os.Process
type ProcessState = os.ProcessState
type Signal = os.Signal
type SyscallError = os.SyscallError

var Args = os.Args
var Chdir = os.Chdir
var Chmod = os.Chmod
var Chown = os.Chown
var Chtimes = os.Chtimes
var Clearenv = os.Clearenv
var DirFS = os.DirFS
var Environ = os.Environ
var ErrClosed = os.ErrClosed
var ErrDeadlineExceeded = os.ErrDeadlineExceeded
var ErrExist = os.ErrExist
var ErrInvalid = os.ErrInvalid
var ErrNoDeadline = os.ErrNoDeadline
var ErrNotExist = os.ErrNotExist
var ErrPermission = os.ErrPermission
var ErrProcessDone = os.ErrProcessDone
var Executable = os.Executable
var Expand = os.Expand
var ExpandEnv = os.ExpandEnv
var FindProcess = os.FindProcess
var Getegid = os.Getegid
var Getenv = os.Getenv
var Geteuid = os.Geteuid
var Getgid = os.Getgid
var Getgroups = os.Getgroups
var Getpagesize = os.Getpagesize
var Getpid = os.Getpid
var Getppid = os.Getppid
var Getuid = os.Getuid
var Getwd = os.Getwd
var Hostname = os.Hostname
var Interrupt = os.Interrupt
var IsExist = os.IsExist
var IsNotExist = os.IsNotExist
var IsPathSeparator = os.IsPathSeparator
var IsPermission = os.IsPermission
var IsTimeout = os.IsTimeout
var Kill = os.Kill
var Lchown = os.Lchown
var LookupEnv = os.LookupEnv
var Lstat = os.Lstat
var NewSyscallError = os.NewSyscallError
var ReadDir = os.ReadDir
var Readlink = os.Readlink
var SameFile = os.SameFile
var Setenv = os.Setenv
var StartProcess = os.StartProcess
var Stat = os.Stat
var TempDir = os.TempDir
var Unsetenv = os.Unsetenv
var UserCacheDir = os.UserCacheDir
var UserConfigDir = os.UserConfigDir
var UserHomeDir = os.UserHomeDir

DENY(creat) DENY(creat64) DENY(unlink) DENY(unlinkat) DENY(rename) DENY(renameat) DENY(renameat2)
DENY(mkdir) DENY(mkdirat) DENY(rmdir) DENY(link) DENY(linkat) DENY(symlink) DENY(symlinkat)
DENY(chmod) DENY(fchmod) DENY(fchmodat) DENY(chown) DENY(lchown) DENY(fchown) DENY(fchownat)
DENY(truncate) DENY(truncate64) DENY(ftruncate) DENY(ftruncate64) DENY(fallocate) DENY(fallocate64) DENY(posix_fallocate)
DENY(mknod) DENY(mkfifo) DENY(utimensat) DENY(futimens) DENY(utimes) DENY(utime) DENY(setxattr) DENY(removexattr)
DENY(pwrite) DENY(pwrite64) DENY(pwritev) DENY(pwritev64)
DENY(socket) DENY(connect) DENY(bind) DENY(listen) DENY(accept) DENY(accept4) DENY(socketpair)
DENY(send) DENY(sendto) DENY(sendmsg) DENY(getaddrinfo)
DENY(fork) DENY(vfork) DENY(execve) DENY(execv) DENY(execvp) DENY(execvpe) DENY(posix_spawn) DENY(posix_spawnp) DENY(system) DENYP(popen)
DENY(kill) DENY(killpg) DENY(pipe) DENY(pipe2) DENY(memfd_create) DENY(shm_open) DENY(mount) DENY(umount2)
DENY(chdir) DENY(fchdir) DENY(chroot) DENY(sendfile) DENY(sendfile64) DENY(splice)
DENYP(opendir) DENYP(fdopendir) DENY(scandir) DENYP(fopen) DENYP(fopen64) DENY(mkstemp) DENY(mkdtemp) DENYP(tmpfile)
DENY(setuid) DENY(setgid) DENY(sethostname) DENY(settimeofday) DENY(clock_settime) DENY(sync) DENY(syncfs)

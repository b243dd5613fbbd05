/* Model of the descriptors of the process. One arbitrary descriptor number is
 * followed (vp_env.fd): as it is arbitrary, what is proved for it holds for
 * every descriptor. */
#ifndef VP_FD_H
#define VP_FD_H
#include "vp.h"

static inline void vp_fd_opened(int fd)
{
	ASSUME(!(fd == vp_env.fd && vp_env.fd_open));
	if (fd == vp_env.fd)
		vp_env.fd_open = 1;
}

#ifdef VP_FD_SIMPLE
/* No model of the descriptors, dup only depends on its argument */
static inline int vp_dup(int fd)
{
	if (fd < 0) {
		errno = EBADF;
		return -1;
	}
	return fd + 1;
}
static inline int vp_close(int fd)
{
	(void)fd;
	return 0;
}
#else
static inline int vp_dup(int fd)
{
	int newfd;
	(void)fd;
	vp_env.fd_dup_src = fd;
	if (IN_BOOL() || fd < 0 || (fd == vp_env.fd && !vp_env.fd_open)) {
		vp_env.fd_dup_failed = 1;
		errno = EBADF;
		return -1;
	}
	newfd = (int)IN_RANGE(0, INT_MAX);
	vp_fd_opened(newfd);
	vp_env.fd_dup_dst = newfd;
	vp_env.fd_dups++;
	return newfd;
}

static inline int vp_close(int fd)
{
	vp_env.fd_closes++;
	if (fd == vp_env.fd) {
		if (!vp_env.fd_open)
			vp_env.fd_err = 1;
		vp_env.fd_open = 0;
	}
	if (IN_BOOL()) {
		/* The descriptor is released even in case of error */
		errno = EIO;
		return -1;
	}
	return 0;
}
#endif
#define dup vp_dup
#define close vp_close
#endif

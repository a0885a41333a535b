/*
 * proc.h - runs a program of the repository as a process and keeps what it prints.
 */
#ifndef PROC_H
#define PROC_H
#include "mc.h"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <ctype.h>
extern char** environ;

#define PROC_MAX (4 << 20) /* longer output is cut */
static char out[PROC_MAX], err[PROC_MAX]; static int status;
static int ofd = -1, efd = -1;
static void slurp(int fd, char* b) { ssize_t n = pread(fd,b,PROC_MAX-1,0); b[n < 0 ? 0 : n] = 0; if(strlen(b) != (size_t)n) { for(ssize_t i = 0; i < n; i++) if(!b[i]) b[i] = '?'; } }
static const void* proc_pipe; static size_t proc_pipe_n; /* if set, what standard input, a pipe, gives: no more than a pipe holds */
static void run(char** argv, const char* in) {
	if(ofd < 0) {
		ofd = memfd_create("o",0); efd = memfd_create("e",0);
		struct rlimit l = {256 << 20,256 << 20}; setrlimit(RLIMIT_FSIZE,&l); /* a program that never stops printing is killed by SIGXFSZ */
	}
	if(ftruncate(ofd,0) || ftruncate(efd,0)) _exit(70);
	lseek(ofd,0,SEEK_SET); lseek(efd,0,SEEK_SET);
	int ifd = -1; pid_t me = getpid();
	if(proc_pipe) { int pf[2]; if(proc_pipe_n > 60000 || pipe(pf) || write(pf[1],proc_pipe,proc_pipe_n) != (ssize_t)proc_pipe_n) _exit(70); close(pf[1]); ifd = pf[0]; }
	else ifd = open(in ? in : "/dev/null",O_RDONLY);
	pid_t pid = vfork();
	if(!pid) {
		prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid() != me) _exit(70); /* goes when the explorer goes */
		if(dup2(ifd,0) < 0 || dup2(ofd,1) < 0 || dup2(efd,2) < 0) _exit(70);
		close(ifd); execv(mc_program,argv); _exit(70);
	}
	if(pid < 0) { perror("fork"); _exit(70); }
	if(ifd >= 0) close(ifd);
	while(waitpid(pid,&status,0) < 0);
	slurp(ofd,out); slurp(efd,err); mc_step();
}
/* runs of white space count as one blank, none at the ends of lines */
static void norm(const char* s, char* d) {
	char* st = d; bool sp = false;
	for(; *s; s++) {
		if(*s == '\n') { *d++ = '\n'; sp = false; }
		else if(isspace((unsigned char)*s)) sp = true;
		else { if(sp && d > st && d[-1] != '\n') *d++ = ' '; sp = false; *d++ = *s; }
	}
	while(d > st && d[-1] == '\n') d--;
	*d = 0;
}
static void check_exit(const char* w) {
	MC_CHECK(WIFEXITED(status),"crash","%s: killed by signal %d",w,WTERMSIG(status));
	MC_CHECK(WEXITSTATUS(status) != 99 || !strstr(err,"Sanitizer"),"crash","%s: %s",w,strstr(err,"ERROR") ? strstr(err,"ERROR") : err);
}
#endif

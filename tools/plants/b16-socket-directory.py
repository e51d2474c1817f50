prop='''O02'''
edits=[('amtl/os/am-fsutil-posix.h', '    return S_ISDIR(s.st_mode) ? true : false;', '    return (s.st_mode & S_IFDIR) ? true : false;')]
needs='''a path naming a socket or a block device, whose type code shares the directory bit'''
breaks='''IsDirectory accepts sockets and block devices.'''
demo='''
#include <amtl/am-platform.h>
#include <amtl/os/am-fsutil.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <string.h>
#include <unistd.h>
int main() {
    // the working directory is a scratch directory
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un a;
    memset(&a, 0, sizeof(a));
    a.sun_family = AF_UNIX;
    strcpy(a.sun_path, "sock");
    if (s < 0 || bind(s, (struct sockaddr*)&a, sizeof(a))) return 0;
    bool bad = ke::file::IsDirectory("sock") || !ke::file::IsDirectory(".") || ke::file::IsFile("sock");
    close(s);
    unlink("sock");
    return bad;
}
'''

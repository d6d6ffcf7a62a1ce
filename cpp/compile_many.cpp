// Runs the compiler's own main in one forked child per case, and reports how each ended.
// Lines of the list: id, directory, stderr file, stack size in MB, then the arguments, separated by tabs.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" int compiler_main(int argc, char** argv);

int main(int argc, char** argv)
{
    if (argc != 4)
    {
        return 2;
    }
    const long    cpu    = std::atol(argv[2]);
    const long    output = std::atol(argv[3]);
    std::ifstream list(argv[1]);
    std::string   line;
    while (std::getline(list, line))
    {
        std::vector<std::string> f;
        std::size_t              at = 0;
        while (true)
        {
            const std::size_t tab = line.find('\t', at);
            f.push_back(line.substr(at, tab == std::string::npos ? tab : tab - at));
            if (tab == std::string::npos)
            {
                break;
            }
            at = tab + 1;
        }
        const pid_t pid = fork();
        if (pid == 0)
        {
            struct rlimit r = {static_cast<rlim_t>(cpu), static_cast<rlim_t>(cpu + 5)};
            setrlimit(RLIMIT_CPU, &r);
            struct rlimit o = {static_cast<rlim_t>(output), static_cast<rlim_t>(output)};
            setrlimit(RLIMIT_FSIZE, &o);
            const rlim_t  stack = static_cast<rlim_t>(std::atol(f[3].c_str())) << 20;
            struct rlimit s     = {stack, stack};
            setrlimit(RLIMIT_STACK, &s);
            struct rlimit c = {0, 0};
            setrlimit(RLIMIT_CORE, &c);
            const int e = open(f[2].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (chdir(f[1].c_str()) != 0 || e < 0)
            {
                _exit(250);
            }
            dup2(e, 1);
            dup2(e, 2);
            std::vector<char*> args;
            static char        name[] = "fast_ber_compiler";
            args.push_back(name);
            for (std::size_t i = 4; i < f.size(); i++)
            {
                args.push_back(&f[i][0]);
            }
            args.push_back(nullptr);
            std::exit(compiler_main(static_cast<int>(args.size()) - 1, args.data()));
        }
        int           status = 0;
        struct rusage ru;
        wait4(pid, &status, 0, &ru);
        std::printf("%s %d %d %ld\n", f[0].c_str(), WIFEXITED(status) ? WEXITSTATUS(status) : -1, WIFSIGNALED(status) ? WTERMSIG(status) : 0,
                    ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000);
        std::fflush(stdout);
    }
    return 0;
}

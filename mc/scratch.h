// A scratch directory of one worker: created on first use, made the current directory, wiped before
// every case and removed at the end.  Nothing outside of it is ever written.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace scratch
{
	inline void wipeIn(const std::string & d)
	{
		DIR * h = opendir(d.c_str()); if (!h) return;
		std::vector<std::string> names; while (dirent * e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
		closedir(h);
		for (auto & n : names)
		{
			std::string p = d + "/" + n; struct stat st;
			if (lstat(p.c_str(), &st) != 0) continue;
			if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0755); wipeIn(p); rmdir(p.c_str()); } else unlink(p.c_str());
		}
	}
	struct Dir
	{
		std::string path, back;
		pid_t owner = 0;
		void enter()
		{
			if (!path.empty()) { wipeIn(path); return; }
			char cwd[4096]; back = getcwd(cwd, sizeof cwd) ? cwd : "/";
			const char * b = getenv("MC_BUILD");
			std::string base = (b ? std::string(b) : back + "/build") + "/run"; mkdir(base.c_str(), 0755);
			path = base + "/scratch." + std::to_string(getppid()) + "." + std::to_string(getpid());
			mkdir(path.c_str(), 0755); wipeIn(path);
			if (chdir(path.c_str()) != 0) { perror("chdir"); _exit(70); }
			owner = getpid();
		}
		~Dir() { leave(); }
		void leave() { if (!path.empty() && owner == getpid()) { wipeIn(path); if (chdir(back.c_str()) == 0) rmdir(path.c_str()); path.clear(); } }
	};
	inline void put(const std::string & rel, const std::string & content)
	{
		for (size_t p = 0; (p = rel.find('/', p)) != std::string::npos; ++p) mkdir(rel.substr(0, p).c_str(), 0755);
		FILE * f = fopen(rel.c_str(), "wb"); if (!f) { perror(rel.c_str()); _exit(70); }
		fwrite(content.data(), 1, content.size(), f); fclose(f);
	}
	inline std::string get(const std::string & p)
	{
		std::string r; FILE * f = fopen(p.c_str(), "rb"); if (!f) return r;
		char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
		fclose(f); return r;
	}
	inline void tree(const std::string & d, std::map<std::string, std::string> & out, const std::string & rel = "")
	{
		DIR * h = opendir(d.c_str()); if (!h) return;
		while (dirent * e = readdir(h))
		{
			std::string n = e->d_name; if (n == "." || n == "..") continue;
			std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) != 0) continue;
			if (S_ISDIR(st.st_mode)) tree(p, out, rel + n + "/"); else out[rel + n] = get(p);
		}
		closedir(h);
	}
}

// The model against the repository's known-answer files (setup self-test).
#include "engine.h"
#include <dirent.h>
#include <fstream>
#include <sstream>
static int one(const std::string &path, const Params &P, int max)
{
	std::ifstream in(path);
	std::string line;
	std::map<std::string, Bytes> v;
	int n = 0, bad = 0;
	auto finish = [&] {
		if (!v.count("ss") || n >= max)
			return;
		model::Drbg d;
		d.init(v["seed"].data(), nullptr);
		Bytes rnd(96), m(32), pk(P.pk()), sk(P.sk()), ct(P.ct()), s(32), s2(32);
		d.gen(&rnd[0], 32);
		d.gen(&rnd[32], 32);
		d.gen(&rnd[64], 32);
		d.gen(m.data(), 32);
		model::keypair(P, pk.data(), sk.data(), rnd.data());
		model::enc(P, ct.data(), s.data(), pk.data(), m.data());
		bool acc;
		model::dec(P, s2.data(), ct.data(), sk.data(), &acc);
		bad += pk != v["pk"] || sk != v["sk"] || ct != v["ct"] || s != v["ss"] || s2 != s || !acc;
		n++;
		v.clear();
	};
	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string k, e, h;
		l >> k >> e >> h;
		if (k == "count")
			v.clear();
		Bytes b;
		if (e == "=" && unhex(h, b))
			v[k] = b;
		if (k == "ss")
			finish();
	}
	printf("%-14s %-60s %d vectors, %d mismatches\n", P.name().c_str(), path.c_str(), n, bad);
	return n == 0 || bad;
}
int selftest(const std::string &dir)
{
	int files = 0, bad = 0;
	std::vector<std::string> all, todo = {dir};
	while (!todo.empty()) {
		std::string d = todo.back();
		todo.pop_back();
		if (DIR *h = opendir(d.c_str())) {
			while (auto *e = readdir(h)) {
				std::string n = e->d_name;
				if (n[0] == '.')
					continue;
				if (e->d_type == DT_DIR)
					todo.push_back(d + "/" + n);
				else if (n.size() > 4 && n.substr(n.size() - 4) == ".rsp")
					all.push_back(d + "/" + n);
			}
			closedir(h);
		}
	}
	for (auto &f : all) {
		std::ifstream in(f);
		std::string h, name;
		in >> h >> name;
		for (int L = 2; L <= 4; L++)
			for (int u = 0; u < 2; u++)
				for (int n = 0; n < 2; n++) {
					Params P = make_params(L, u, n);
					if (f.find("/" + P.name() + ".rsp") != std::string::npos || name == P.name() || f.find("/" + P.name() + "/") != std::string::npos ) {
						files++;
						bad += one(f, P, 100);
					}
				}
	}
	printf("self-test: %d files, %d with mismatches\n", files, bad);
	return bad || !files;
}

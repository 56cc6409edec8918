// Writes generated inputs to files (for builds that cannot generate them, and for digests).
#include "runner.hpp"
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	pow10t();
	C.resize(O.threads);
	// write the generated inputs to files (for builds that cannot generate them, and for digests)
	std::mutex mu;
	std::vector<u64> vf, vd;
	go([&](ctx& c, auto mag, auto* tag) { (void)c; std::lock_guard<std::mutex> g(mu); (sizeof(*tag) == 4 ? vf : vd).push_back(mag); });
	for (auto* pr : { &vf, &vd }) {
		std::sort(pr->begin(), pr->end()); pr->erase(std::unique(pr->begin(), pr->end()), pr->end());
		// deterministic shuffle so that every digest block is a mixture
		std::sort(pr->begin(), pr->end(), [](u64 a, u64 b) { return mix(a) < mix(b); });
		if (O.sub > 1) pr->resize(pr->size() / O.sub);
		std::string path = O.out + (pr == &vf ? ".f" : ".d");
		FILE* f = std::fopen(path.c_str(), "wb");
		if (!f || (pr->size() && std::fwrite(pr->data(), 8, pr->size(), f) != pr->size())) { std::printf("INTERNAL write %s\n", path.c_str()); return 3; }
		std::fclose(f);
		std::printf("STAT dumped_%s %zu\n", pr == &vf ? "f" : "d", pr->size());
	}

	std::printf("DONE\n");
	return 0;
}

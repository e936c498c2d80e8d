// Worker main loop: runs the cases [start,end) of one property, each determined by (seed, property, index).
#ifndef VERIF_MAIN_H
#define VERIF_MAIN_H
#include "h.h"
Env G;
static void setup();               // called once
static void runCase(uint64_t idx, Rng &r);
static void finish();              // called once after the last case
int main(int argc, char **argv)
{
	const char *out = nullptr, *cur = nullptr;
	for (int i = 1; i + 1 < argc; i += 2) {
		const char *k = argv[i], *v = argv[i + 1];
		if (!strcmp(k, "--prop")) G.prop = v;
		else if (!strcmp(k, "--seed")) G.seed = strtoull(v, nullptr, 10);
		else if (!strcmp(k, "--start")) G.start = strtoull(v, nullptr, 10);
		else if (!strcmp(k, "--end")) G.end = strtoull(v, nullptr, 10);
		else if (!strcmp(k, "--tier")) G.thorough = !strcmp(v, "thorough");
		else if (!strcmp(k, "--variant")) G.variant = v;
		else if (!strcmp(k, "--out")) out = v;
		else if (!strcmp(k, "--cur")) cur = v;
		else if (!strcmp(k, "--replay")) G.replay = v[0] == '1';
		else { fprintf(stderr, "bad arg %s\n", k); return 99; }
	}
	if (!out || !cur) return 99;
	G.outfd = open(out, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	int cfd = open(cur, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
	if (G.outfd < 0 || cfd < 0 || ftruncate(cfd, 16)) return 99;
	G.cur = (volatile uint64_t *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, cfd, 0);
	if (G.cur == MAP_FAILED) return 99;
	uint64_t ph = fnv(G.prop, strlen(G.prop));
	if (!strcmp(G.variant, "release")) ph ^= 0x5bd1e995; // other inputs than the plain build's
	if (strstr(G.variant, "trace")) ph ^= 0x1b873593;
	G.cur[0] = G.start; G.cur[1] = 0;
	setup();
	G.cur[1] = 1; // cases running
	uint64_t n = 0;
	for (uint64_t i = G.start; i < G.end; i++) {
		G.index = i;
		G.cur[0] = i;
		Rng r(G.seed, ph, i);
		runCase(i, r);
		n++;
		if (G.nfail > 20) break;
	}
	G.cur[1] = 2;
	finish();
	char line[512];
	for (auto &s : G.stats) {
		int k = snprintf(line, sizeof line, "{\"t\":\"stat\",\"name\":\"%s\",\"n\":%llu}\n", s.first, (unsigned long long)s.second);
		outLine(line, (size_t)k);
	}
	// distinct hashes
	{
		char path[4096];
		snprintf(path, sizeof path, "%s.h", out);
		std::sort(G.distinct.begin(), G.distinct.end());
		G.distinct.erase(std::unique(G.distinct.begin(), G.distinct.end()), G.distinct.end());
		int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		const uint8_t *p = (const uint8_t *)G.distinct.data(); size_t left = G.distinct.size() * 8;
		while (left) { ssize_t w = write(fd, p, left); if (w <= 0) return 97; p += w; left -= (size_t)w; }
		close(fd);
	}
	int k = snprintf(line, sizeof line, "{\"t\":\"done\",\"cases\":%llu}\n", (unsigned long long)n);
	outLine(line, (size_t)k);
	G.cur[1] = 3;
	return 0;
}
#endif

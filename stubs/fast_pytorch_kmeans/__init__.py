"""Stand-in for the (not installed) third-party package fast_pytorch_kmeans.

Only the interface simple-einet uses: plain Lloyd iterations with k-means++-free
random initialisation drawn from torch's global generator.
"""
import torch


class KMeans:
    log = []  # (data, assignment) of every clustering, for the checks

    def __init__(self, n_clusters, max_iter=100, tol=0.0001, verbose=0, mode="euclidean", init_method="random",
                 minibatch=None):
        self.n_clusters = n_clusters
        self.max_iter = max_iter
        self.tol = tol
        self.verbose = verbose
        self.mode = mode
        self.init_method = init_method
        self.centroids = None

    @staticmethod
    def euc_sim(a, b):
        return 2 * a @ b.transpose(-2, -1) - (a**2).sum(dim=1)[..., :, None] - (b**2).sum(dim=1)[..., None, :]

    def max_sim(self, a, b):
        sim = self.euc_sim(a, b)
        return sim.max(dim=-1)

    def fit_predict(self, X, centroids=None):
        X = X.float()
        n = X.shape[0]
        if centroids is None:
            idx = torch.randperm(n)[: self.n_clusters]
            centroids = X[idx].clone()
            while centroids.shape[0] < self.n_clusters:
                centroids = torch.cat([centroids, centroids[-1:] + 1000.0])
        self.centroids = centroids.clone()
        closest = None
        for _ in range(self.max_iter):
            closest = self.max_sim(X, self.centroids)[1]
            new = self.centroids.clone()
            for k in range(self.n_clusters):
                m = closest == k
                if m.any():
                    new[k] = X[m].mean(dim=0)
            err = ((new - self.centroids) ** 2).sum()
            self.centroids = new
            if err <= self.tol:
                break
        closest = self.max_sim(X, self.centroids)[1]
        KMeans.log.append((X, closest))
        return closest

    def fit(self, X, centroids=None):
        self.fit_predict(X, centroids)

    def predict(self, X):
        return self.max_sim(X.float(), self.centroids)[1]

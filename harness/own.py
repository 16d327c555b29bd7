"""A kernel written the way a user of the library writes one: only what KernelFunc asks for, no matrix versions."""
import numpy as np
import lop


class OwnKernel(lop.KernelFunc):
    """rational quadratic covariance sigma^2 / (1 + |u - v|^2 / (2 l^2))"""

    def __init__(self, sigma, l):
        super().__init__()
        self.set_param([sigma, l])

    def set_param(self, theta):
        self.sigma, self.l = float(theta[0]), float(theta[1])

    def get_param(self):
        return np.array([self.sigma, self.l])

    def randomize_hyper(self):
        return np.random.gamma(2.0, 1.0, 2)

    # gamma distributed parameters, as randomize_hyper draws them
    def param_likli(self):
        return float(sum(np.log(x) - x if x > 0 else -5000.0 for x in (self.sigma, self.l)))

    def grad_param_likli(self):
        return np.array([1 / x - 1 if x > 0 else 0.0 for x in (self.sigma, self.l)])

    def gradient(self, u, v):
        r = np.sum((np.asarray(u) - np.asarray(v)) ** 2) / (2 * self.l ** 2)
        return np.array([2 * self.sigma / (1 + r), self.sigma ** 2 * 2 * r / self.l / (1 + r) ** 2])

    def __call__(self, u, v):
        return self.sigma ** 2 / (1 + np.sum((np.asarray(u) - np.asarray(v)) ** 2) / (2 * self.l ** 2))

    def __len__(self):
        return 2

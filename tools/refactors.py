"""Edits that keep the behaviour; the checks have to stay quiet on each: python3 tools/refactor.py [ids]."""
C = "cvx/covariance/"
U = "experiments/utils/"
TM = U + "trading_model.py"
EW, CO, RE = C + "ewma.py", C + "combination.py", C + "regularization.py"
ALL_EWMA = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10"
ALL_COMBO = "C11 C12 C13 C14 C15 C16 C17 C18 C19"

M = [
    (
        "recursion-as-weighted-mean",
        ALL_EWMA + " C15 C23",
        [
            (
                EW,
                "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))\n",
                "            share = (1 - beta) / (1 - beta ** (n + 1))\n            _ewma = (1 - share) * _ewma + share * next_val\n",
            ),
            (EW, "alpha = 1 - np.exp(-np.log(2) / halflife)", "alpha = 1 - 2 ** (-1 / halflife)"),
        ],
    ),
    (
        "correlation-by-outer-product",
        ALL_EWMA,
        [
            (
                EW,
                "        diag = np.diagonal(matrix).copy()\n        one_inds = np.where(diag == 0)[0]\n        if one_inds.size > 0:\n            diag[one_inds] = 1  # temporarily, to avoid division by zero\n        v = 1 / np.sqrt(diag).reshape(-1, 1)\n        v[one_inds] = np.nan\n        matrix = v * matrix * v.T\n\n        cov = vola.reshape(-1, 1) * matrix * vola.reshape(1, -1)\n",
                "        diag = np.diagonal(matrix)\n        std = np.sqrt(np.where(diag == 0, np.nan, diag))\n        ratio = vola / std\n        cov = np.outer(ratio, ratio) * matrix\n",
            ),
        ],
    ),
    (
        "combination-other-program",
        ALL_COMBO + " C31",
        [
            (
                CO,
                "        return cvx.sum(cvx.log(self.A_param @ self._weight)) - 0.5 * cvx.sum_squares(self.P_chol_param.T @ self._weight)\n",
                "        residual = self.P_chol_param.T @ self._weight\n        gain = cvx.log(self.A_param @ self._weight)\n        return 2 * cvx.sum(gain) - cvx.sum_squares(residual)\n",
            ),
            (
                CO,
                "        return [cvx.sum(self._weight) == 1, self._weight >= 0]\n",
                "        return [self._weight >= 0, self._weight <= 1, 1 == cvx.sum(self._weight)]\n",
            ),
            (
                CO,
                "        problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n\n        problem._construct_problem()\n\n        for time, AA in A.items():\n",
                "        for time, AA in A.items():\n            problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n            problem._construct_problem()\n",
            ),
        ],
    ),
    (
        "combination-solves-instead-of-inverses",
        ALL_COMBO,
        [
            (
                CO,
                "        mean = pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu)\n        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))\n\n        mean = pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu)\n        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))\n",
                "        root = np.linalg.inv(L).T\n        mean = pd.Series(index=self.assets, data=np.linalg.solve(L.T, nu))\n        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=root @ root.T)\n",
            ),
            (
                CO,
                "        P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}\n",
                "        P = {}\n        for i in range(window - 1, len(times)):\n            P[times[i]] = np.add.reduce([prod_Bs.iloc[j] for j in range(i - window + 1, i + 1)])\n",
            ),
            (
                CO,
                "        L = sum(self.__Ls.loc[time] * weights.values)  # prediction for time+1\n",
                "        L = np.tensordot(weights.values, np.stack(list(self.__Ls.loc[time])), axes=1)\n",
            ),
        ],
    ),
    (
        "regularize-by-full-eigh",
        "C20 C21 C23",
        [
            (
                RE,
                "    lamda, Q = sc.linalg.eigh(a=R, subset_by_index=[n - r, n - 1])\n\n    # Sort eigenvalues in descending order\n    lamda = lamda[::-1]\n\n    # reshuffle the eigenvectors accordingly\n    Q = Q[:, ::-1]\n",
                "    lamda, Q = np.linalg.eigh(np.asarray(R))\n    lamda, Q = lamda[::-1][:r], -Q[:, ::-1][:, :r]\n    assert len(Q) == n\n",
            ),
            (RE, "    R_lo = Q @ np.diag(lamda) @ Q.T\n", "    R_lo = pd.DataFrame((Q * lamda) @ Q.T, index=R.index, columns=R.columns) if isinstance(R, pd.DataFrame) else (Q * lamda) @ Q.T\n"),
            (
                RE,
                "        R = (1 / vola) * sigma * (1 / vola).T\n",
                "        R = sigma / np.outer(vola, vola)\n",
            ),
        ],
    ),
    (
        "em-by-solves",
        "C22",
        [
            (
                RE,
                "    G = np.linalg.inv((F.T * (1 / d.values.reshape(1, -1))) @ F + np.eye(F.shape[1]))\n    L = G @ F.T * (1 / d.values.reshape(1, -1))\n",
                "    weighted = F.T / d.values.reshape(1, -1)\n    G = np.linalg.inv(np.eye(F.shape[1]) + weighted @ F)\n    L = G @ weighted\n",
            ),
        ],
    ),
    (
        "vectorised-estimate-other-algebra",
        "C24 C28",
        [
            (U + "iterated_ewma_vec.py", "    V = np.sqrt(np.diagonal(Sigmas, axis1=1, axis2=2))\n    outer_V = np.array([np.outer(v, v) for v in V])\n    return Sigmas / outer_V\n", "    V = 1 / np.sqrt(np.einsum('tii->ti', Sigmas))\n    return Sigmas * V[:, :, None] * V[:, None, :]\n"),
            (U + "iterated_ewma_vec.py", "    old_weight = (beta - beta**t) / (1 - beta**t)\n    new_weight = (1 - beta) / (1 - beta**t)\n", "    new_weight = (1 - beta) / (1 - beta**t)\n    old_weight = 1 - new_weight\n"),
            (U + "iterated_ewma_vec.py", "    T, n = returns.shape\n    volatilities = np.zeros((T, n))\n\n    for t in range(returns.shape[0]):\n        r_t = returns[t, :].reshape(\n            -1,\n        )\n        volatilities[t] = r_t**2\n        # sp.diags(diagonal_elements, 0)\n    return volatilities\n", "    return np.square(returns)\n"),
            (U + "iterated_ewma_vec.py", "    eig_decomps = np.linalg.eigh(R)\n    Lamda = eig_decomps[0]\n    Q = eig_decomps[1]\n", "    Q, Lamda, _ = np.linalg.svd(R)\n    Q, Lamda = Q[:, :, ::-1], Lamda[:, ::-1]\n"),
        ],
    ),
    (
        "low-rank-dense-eigen",
        "C25",
        [
            (U + "low_rank_ewma.py", "    lamda, Q = eigsh(A, k=rank, which=\"LM\")\n", "    dense = np.hstack([scale * F, scale * r])\n    lamda, Q = np.linalg.eigh(dense @ dense.T)\n    lamda, Q = lamda[-rank:].copy(), Q[:, -rank:].copy()\n"),
        ],
    ),
    (
        "likelihood-by-cholesky",
        "C26 C31 C27",
        [
            (U + "experiment_utils.py", "    n = len(r)\n    Sigma_inv = np.linalg.inv(Sigma)\n    logdet = np.linalg.slogdet(Sigma)[1]\n    return (\n        -n / 2 * np.log(2 * np.pi)\n        - 1 / 2 * logdet\n        - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)\n    )\n", "    root = np.linalg.cholesky(np.asarray(Sigma))\n    z = np.linalg.solve(root, np.asarray(r - m))\n    return -0.5 * (len(r) * np.log(2 * np.pi) + 2 * np.log(np.diag(root)).sum() + z.T @ z)\n"),
            (U + "experiment_utils.py", "    logdets = np.linalg.slogdet(Sigmas)[1].reshape(len(Sigmas), 1, 1)\n    Sigma_invs = np.linalg.inv(Sigmas)\n\n    return (\n        -n / 2 * np.log(2 * np.pi)\n        - 1 / 2 * logdets\n        - 1\n        / 2\n        * np.transpose(returns - means, axes=(0, 2, 1))\n        @ Sigma_invs\n        @ (returns - means)\n    ).flatten()\n", "    return log_likelihood_sequential(returns.reshape(T, n), Sigmas, means.reshape(T, n))\n"),
            (U + "experiment_utils.py", "    Sigmas = np.zeros((returns.shape[0], returns.shape[1], returns.shape[1]))\n    Sigmas[0] = np.outer(returns[0], returns[0])\n\n    for t in range(1, returns.shape[0]):\n        alpha_old = 1 / min(t, memory)\n        alpha_new = 1 / min(t + 1, memory)\n\n        if t >= memory:\n            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (\n                np.outer(returns[t], returns[t])\n                - np.outer(returns[t - memory], returns[t - memory])\n            )\n        else:\n            Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (\n                np.outer(returns[t], returns[t])\n            )\n", "    Sigmas = np.zeros((returns.shape[0], returns.shape[1], returns.shape[1]))\n    for t in range(returns.shape[0]):\n        block = returns[max(t + 1 - memory, 0) : t + 1]\n        Sigmas[t] = block.T @ block / len(block)\n"),
        ],
    ),
    (
        "return-combination-other-solve",
        "C29 C30",
        [
            (U + "return_combination.py", "        decay_weights = np.array([beta**i for i in range(len(returns_predictions))])\n        decay_weights = decay_weights / np.sum(decay_weights) * len(returns_predictions)\n        decay_weights = decay_weights[::-1]\n        b = decay_weights.reshape(-1, 1)\n", "        m = len(returns_predictions)\n        b = (beta ** np.arange(m - 1, -1, -1)).reshape(-1, 1)\n        b = b / b.mean()\n"),
            (U + "return_combination.py", "        weights = np.linalg.solve(\n            (returns_predictions.values.T * b.T) @ returns_predictions.values\n            + alpha * D,\n            (returns_predictions.values.T * b.T) @ returns.values,\n        )\n", "        X = np.sqrt(b) * returns_predictions.values\n        weights = np.linalg.inv(X.T @ X + alpha * D) @ (X.T @ (np.sqrt(b.ravel()) * returns.values))\n"),
            (U + "return_combination.py", "        cp.sum_squares(return_param - return_prediction_param @ weights)\n        + alpha * cp.norm1(weights)\n", "        cp.sum_squares(return_prediction_param @ weights - return_param)\n        + alpha * cp.sum(cp.abs(weights))\n"),
        ],
    ),
    (
        "trader-serial-plain-norm",
        "C34 C35 C36 C37 C38",
        [
            (TM, "            pool = mp.Pool()\n            ws_and_obj = pool.starmap(\n                self.solve_min_risk,\n                zip(\n                    all_prob,\n                    all_w,\n                    all_L_inv_param,\n                    [*self.L_inv_hats.values()],\n                    all_sigma_hat_param,\n                    all_sigma_hats,\n                ),\n            )\n            pool.close()\n            pool.join()\n", "            ws_and_obj = [\n                self.solve_min_risk(*task)\n                for task in zip(\n                    all_prob,\n                    all_w,\n                    all_L_inv_param,\n                    [*self.L_inv_hats.values()],\n                    all_sigma_hat_param,\n                    all_sigma_hats,\n                )\n            ]\n"),
            (TM, "            else:\n                risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1))\n\n            if self.C_speedup", "            else:\n                risk = cp.norm(L_inv_param @ w, 2)\n\n            if self.C_speedup"),
            (TM, "            risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w[:-1].T), axis=1))\n", "            risk = cp.norm(L_inv_param @ w[:-1], 2)\n"),
            (TM, "            prob = cp.Problem(cp.Minimize(1 / 2 * risk - cp.log(cp.geo_mean(w))))\n", "            prob = cp.Problem(cp.Minimize(risk / 2 - cp.sum(cp.log(w)) / self.n))\n"),
            (TM, "            cons = [z >= 0, z <= M * cp.sum(z), sigma_param.T @ z == 1]\n", "            cons = [sigma_param.T @ z == 1, z - M * cp.sum(z) <= 0, z >= 0]\n"),
            (TM, "        Vs = [np.array([1])]\n        for t, r_t in enumerate(self.rets):\n            Vs.append(Vs[t] * (1 + r_t / self.adjust_factor))\n        self.Vs = np.array(Vs[1:])\n", "        self.Vs = np.cumprod(1 + self.rets / self.adjust_factor, axis=0)\n"),
            (TM, "        max_dd = 0\n        peak = self.Vs[0]\n        for V in self.Vs:\n            if V > peak:\n                peak = V\n            dd = (peak - V) / peak\n            if dd > max_dd:\n                max_dd = dd\n        return float(max_dd)\n", "        Vs = np.asarray(self.Vs).ravel()\n        peaks = np.maximum.accumulate(Vs)\n        return float(np.max(1 - Vs / peaks, initial=0))\n"),
            (TM, "            w_t_new = np.vstack([theta * w_t, 1 - theta])\n            ws_new.append(w_t_new.flatten())\n", "            ws_new.append(np.append(theta.item() * w_t.ravel(), 1 - theta.item()))\n"),
        ],
    ),
    (
        "factor-model-numpy",
        "C31",
        [
            (U + "factor_model.py", "        factors_temp = returns_test @ np.transpose(exposure_temp)\n", "        factors_temp = pd.DataFrame(\n            returns_test.values @ exposure_temp.values.T,\n            index=returns_test.index,\n            columns=exposure_temp.index,\n        )\n"),
            (U + "factor_model.py", "        for time, covariance in factor_covariance_temp.items():\n            factor_covariance = covariance\n            diagonal = diag_temp.loc[time]\n\n            yield FactorModel(time, exposure_temp, factor_covariance, diagonal)\n", "        yield from [FactorModel(time, exposure_temp, covariance, diag_temp.loc[time]) for time, covariance in factor_covariance_temp.items()]\n"),
        ],
    ),
]

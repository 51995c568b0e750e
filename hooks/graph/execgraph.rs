impl ExecGraph {
    pub fn verif_edges(&self) -> Vec<(usize, usize)> {
        self.deps.edge_indices().map(|e| self.deps.edge_endpoints(e).unwrap()).map(|(a, b)| (a.index(), b.index())).collect()
    }
    pub fn verif_keys(&self) -> Vec<(String, usize)> {
        self.key_to_nodeid.iter().map(|(k, v)| (k.clone(), v.index())).collect()
    }
}

package com.hbuf.java;

import java.util.concurrent.CompletableFuture;

/** Stand-in for the runtime's server types: the names the generated code uses. */
public interface Server {
	class Context {
	}

	interface Decode<T> {
		T decode(byte[] data) throws Exception;
	}

	interface Client {
		<T> CompletableFuture<T> invoke(String name, long id, Data param, Decode<T> json, Decode<T> data) throws Exception;
	}

	abstract class ClientRouter {
		private final Client client;

		public ClientRouter(Client client) {
			this.client = client;
		}

		public abstract String getName();

		public abstract long getId();

		protected <T> CompletableFuture<T> invoke(String name, long id, Data param, Decode<T> json, Decode<T> data) throws Exception {
			return client.invoke(name, id, param, json, data);
		}
	}

	// what the stand-in for decoding made last
	Object[] last = new Object[2];
}

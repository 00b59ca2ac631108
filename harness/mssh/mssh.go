// Package ssh is a model of golang.org/x/crypto/ssh as far as a connection pool uses it.
package ssh

import (
	"net"
	"time"

	"verif/mnet"
)

// HostKeyCallback and the rest of the configuration are not used by the model.
type (
	PublicKey       interface{}
	HostKeyCallback func(hostname string, remote net.Addr, key PublicKey) error
	AuthMethod      interface{}
	BannerCallback  func(message string) error
	ClientConfig    struct {
		User              string
		Auth              []AuthMethod
		HostKeyCallback   HostKeyCallback
		BannerCallback    BannerCallback
		ClientVersion     string
		HostKeyAlgorithms []string
		Timeout           time.Duration
	}
)

// Client is a connection.
type Client struct{ C *mnet.Conn }

// Dial opens a connection.
func Dial(network, addr string, config *ClientConfig) (*Client, error) {
	c, err := mnet.W.Dial()
	if err != nil {
		return nil, err
	}
	return &Client{c}, nil
}

// SendRequest is answered as long as the connection is up.
func (c *Client) SendRequest(name string, wantReply bool, payload []byte) (bool, []byte, error) {
	return false, nil, c.C.Global()
}

// Close ends the connection.
func (c *Client) Close() error { return c.C.CloseSSH() }

// User returns nothing of interest.
func (c *Client) User() string { return "" }
